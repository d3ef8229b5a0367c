#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TESTS = ('Existing tests compare a handful of literal lane values (mostly splats of small numbers) per type, in the '
         'one target-feature configuration they are built for.')

# id, title, statement, over, text, extra-why, files, mechanism
P = []


def p(id, title, stmt, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text),
                  why_tests_cant=why + ' ' + TESTS, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


IC = ['inputs', 'configurations']
ALLT = 'every vector type of the crate that has the operation, every lane value, every x86 target-feature level, with and without overflow checks'

p('P01', 'Lane-wise arithmetic equals wrapping / IEEE scalar arithmetic',
  'For every integer and float vector type, +, -, *, / and % between two vectors, between a vector and a scalar on either side, and in their assigning forms compute in each lane exactly the scalar result of the two corresponding lanes: modulo 2^w for +, - and * of integers, truncating division and its remainder for / and % (divisor non-zero and quotient representable), IEEE-754 for floats. No lane influences another and none of them panics, in debug builds included.',
  IC, ALLT, 'Quantifies over all pairs of lane values of 55 types in 25 operator forms.',
  ['src/api/ops/vector_arithmetic.rs', 'src/api/ops/scalar_arithmetic.rs', 'src/codegen/llvm.rs'],
  [('operator impls', 'src/api/ops/vector_arithmetic.rs'), ('scalar operand forms', 'src/api/ops/scalar_arithmetic.rs')])
p('P02', 'Lane-wise bitwise operators and shifts equal the scalar operators',
  'For every integer and mask vector type, &, |, ^ and ! (vector and scalar operands, assigning forms) compute each lane from the corresponding lanes alone, and for masks they are the boolean connectives. For integer vectors << and >> by a vector or by a u32, with each count below the lane width, shift each lane by its own count; >> is arithmetic for signed and logical for unsigned lanes.',
  IC, ALLT, 'Every lane/count combination of 48 integer and 24 mask types.',
  ['src/api/ops/vector_bitwise.rs', 'src/api/ops/vector_mask_bitwise.rs', 'src/api/ops/scalar_bitwise.rs', 'src/api/ops/scalar_mask_bitwise.rs', 'src/api/ops/vector_shifts.rs', 'src/api/ops/scalar_shifts.rs'],
  [('operator impls', 'src/api/ops/'), ('mask splat of a bool operand', 'src/api/ops/scalar_mask_bitwise.rs')])
p('P03', 'Rotates move bits circularly for every count',
  'Rotating an integer vector left or right moves every bit of each lane by that lane\'s count modulo the lane width, losing and duplicating none, for every lane value (negative ones included) and every count, zero and multiples of the width included. Left and right rotation by the same count are inverse.',
  IC, 'all 48 integer vector types, every lane value and every count value', 'The counts at which naive shift pairs fail (0, multiples of the width, counts beyond it, sign bit set) are rarely sampled.',
  ['src/api/ops/vector_rotates.rs'], [('rotate_left / rotate_right', 'src/api/ops/vector_rotates.rs')])
p('P04', 'Lane-wise min, max and negation',
  'Lane-wise minimum and maximum return in each lane the smaller/larger of the two lanes in the element type\'s own order (signed or unsigned); for floats a NaN lane yields the other operand. Negation is two\'s complement (wrapping, also at the minimum, never panicking) for signed integers and flips only the sign bit of floats.',
  IC, ALLT, 'Signedness and NaN handling at the extremes of each width.',
  ['src/api/ops/vector_int_min_max.rs', 'src/api/ops/vector_float_min_max.rs', 'src/api/ops/vector_neg.rs'],
  [('min/max', 'src/api/ops/vector_int_min_max.rs'), ('float min/max', 'src/api/ops/vector_float_min_max.rs'), ('negation', 'src/api/ops/vector_neg.rs')])
p('P05', 'Lane-wise comparisons and float classification yield exact masks',
  'Lane-wise eq, ne, lt, le, gt, ge of two vectors, the null test of pointer vectors and the is-NaN / is-infinite / is-finite tests of float vectors return a mask whose lane is all-ones exactly when the scalar predicate holds for that lane and all-zeros otherwise. Order is that of the element type: signed, unsigned, address, false < true for masks, IEEE (unordered compares false except ne) for floats.',
  IC, ALLT, 'Sign boundaries, NaN, infinities, signed zeros and every address for 85 types.',
  ['src/api/cmp/vertical.rs', 'src/api/minimal/ptr.rs', 'src/api/math/float.rs'],
  [('vertical comparisons', 'src/api/cmp/vertical.rs'), ('is_null', 'src/api/minimal/ptr.rs')])
p('P06', 'Vector equality is the conjunction of lane equalities',
  '== between two vectors is true exactly when every pair of lanes is equal, and != is its exact negation. This holds for every vector type (floats with IEEE equality per lane, so a NaN lane makes == false and != true) and at every target-feature level.',
  IC, ALLT, 'A difference in any single lane and bit must be seen.',
  ['src/api/cmp/partial_eq.rs', 'src/codegen/reductions/mask/x86.rs'],
  [('PartialEq', 'src/api/cmp/partial_eq.rs'), ('mask all() reduction', 'src/codegen/reductions/mask.rs')])
p('P07', 'Lexicographic order of vectors is a lane-order total order',
  'The lexicographic ordering views of a vector compare two vectors as the sequences of their lanes, lane 0 first: cmp, partial_cmp, <, <=, >, >=, ==, != all agree with comparing the two lane arrays. The order is therefore total, antisymmetric, transitive and consistent with equality, for every pair of vectors.',
  IC, 'all integer and mask vector types, every pair of vectors, every target-feature level', 'Needs every combination of first differing lane and direction.',
  ['src/api/cmp/partial_ord.rs', 'src/api/cmp/ord.rs'],
  [('partial order loop', 'src/api/cmp/partial_ord.rs'), ('total order', 'src/api/cmp/ord.rs')])
p('P08', 'Mask reductions agree with the lanes at every feature level',
  'For every mask type, all / any / none return true exactly when all lanes / at least one lane / no lane is set, and the and / or / xor reductions return the boolean conjunction / disjunction / parity of the lanes. The result is the same whichever target features the crate is compiled for.',
  IC, 'all 24 mask types, all lane combinations (up to 2^64), each of the x86 feature levels that select an implementation', 'Hardware-specific implementations are chosen at compile time and the test build exercises one of them with three or four lane patterns.',
  ['src/api/reductions/mask.rs', 'src/codegen/reductions/mask.rs', 'src/codegen/reductions/mask/x86.rs', 'src/codegen/reductions/mask/x86/sse.rs', 'src/codegen/reductions/mask/x86/sse2.rs', 'src/codegen/reductions/mask/x86/avx.rs', 'src/codegen/reductions/mask/x86/avx2.rs', 'src/codegen/reductions/mask/fallback_impl.rs', 'src/api/reductions/bitwise.rs'],
  [('movemask-based reductions', 'src/codegen/reductions/mask/x86/'), ('dispatch by feature', 'src/codegen/reductions/mask/x86.rs')])
p('P09', 'Mask select picks each lane from the right operand',
  'Selecting between two vectors under a mask of the same lane count returns, in every lane, the first vector\'s lane bit-for-bit if the mask lane is set and the second vector\'s lane otherwise. It holds for every combination of mask width and vector type with equal lane count.',
  IC, 'all 407 mask/vector type combinations, all masks, all lane values', 'Combinations of mask width and element width are not tested pairwise.',
  ['src/api/select.rs'], [('select', 'src/api/select.rs')])
p('P10', 'Integer reductions equal the scalar fold over the lanes',
  'For every integer vector the wrapping sum, wrapping product, and / or / xor and max / min reductions equal the fold of the scalar operation over all lanes, each lane contributing exactly once, with wrap-around and never a panic. Summing or multiplying an iterator of vectors (by value or reference) folds lane-wise from the identity.',
  IC, 'all 48 integer types, every lane value; iterators of 0, 1 and 3 vectors with arbitrary contents', 'Each lane must contribute once and with the right signedness, including overflow.',
  ['src/api/reductions/integer_arithmetic.rs', 'src/api/reductions/bitwise.rs', 'src/api/reductions/min_max.rs'],
  [('sum/product', 'src/api/reductions/integer_arithmetic.rs'), ('min/max', 'src/api/reductions/min_max.rs')])
p('P11', 'Float reductions combine every lane exactly once',
  'For every float vector sum and product combine all lanes exactly once with IEEE addition / multiplication in some association order, and max / min return the largest / smallest lane, ignoring NaN lanes. Summing or multiplying an iterator of vectors folds lane-wise from 0 / 1.',
  IC, 'all 7 float types, every lane value, any association order', 'A lane dropped or used twice, or a wrong start value, shows only for particular values.',
  ['src/api/reductions/float_arithmetic.rs', 'src/api/reductions/min_max.rs'],
  [('sum/product', 'src/api/reductions/float_arithmetic.rs'), ('min/max', 'src/api/reductions/min_max.rs')])
p('P12', 'Construction and indexed lane access',
  'Constructors place the i-th argument in lane i, splat and default fill every lane, a clone (clone, clone_from) equals its original bit for bit, and the reported lane count is the number of lanes. Reading lane i returns that lane and replacing lane i changes exactly that lane; an index that is not below the lane count panics in the checked forms, and the unchecked forms agree with the checked ones on valid indices.',
  IC, 'all 85 vector types, every index value of the index type, every lane value', 'Only a few in-range and one out-of-range index are tried.',
  ['src/api/minimal/iuf.rs', 'src/api/minimal/mask.rs', 'src/api/minimal/ptr.rs', 'src/api/default.rs'],
  [('bounds assertion in extract/replace', 'src/api/minimal/iuf.rs')])
p('P13', 'Reading a vector from a slice: lanes, bounds and alignment',
  'Reading a vector from a slice yields the first elements of the slice in order, reads nothing outside them, and panics exactly when the slice is shorter than the vector or, for the aligned form, when its address is not a multiple of the vector\'s alignment. The unchecked forms return the same lanes whenever their documented preconditions hold, and the aligned form assumes no more than the alignment it checked.',
  IC, 'every slice length, every slice address, every content, all 61 types with slice access', 'Length and address are unbounded runtime quantities.',
  ['src/api/slice/from_slice.rs', 'src/api/minimal/ptr.rs'],
  [('length and alignment assertions', 'src/api/slice/from_slice.rs')])
p('P14', 'Writing a vector to a slice: lanes, bounds and alignment',
  'Writing a vector to a slice stores lane i in element i, leaves every other element untouched, and panics - writing nothing - exactly when the slice is shorter than the vector or, for the aligned form, when its address is not a multiple of the vector\'s alignment. The unchecked forms write the same lanes whenever their documented preconditions hold.',
  IC, 'every slice length, every slice address, every previous content, all 61 types with slice access', 'Length and address are unbounded runtime quantities.',
  ['src/api/slice/write_to_slice.rs', 'src/api/minimal/ptr.rs'],
  [('length and alignment assertions', 'src/api/slice/write_to_slice.rs')])
p('P15', 'Array conversions keep lane order and bits',
  'Converting an array to a vector and a vector to an array keeps element i in lane i bit-for-bit, for every vector type; for mask vectors the array element is the mask element of that lane. The two conversions are inverse to each other.',
  IC, ALLT, 'Every bit of every lane, NaN payloads and padding-free masks included.',
  ['src/api/from/from_array.rs', 'src/api/minimal/ptr.rs'], [('From impls', 'src/api/from/from_array.rs')])
p('P16', 'Numeric lane casts equal scalar as-casts',
  'Casting a vector to another vector type with the same lane count converts each lane like the scalar `as` cast: truncation or sign/zero extension between integers, saturating (NaN to 0) from float to integer, nearest-even to float. Casts involving masks map false to 0 and true to all-ones (-1 or the maximum), and the result of a cast to a mask is always a valid mask.',
  IC, 'all 1164 source/target type pairs, every lane value', 'Tests cast a default or a single small value per pair.',
  ['src/api/cast/macros.rs', 'src/api/cast/v16.rs', 'src/api/cast/v32.rs', 'src/api/cast/v64.rs', 'src/api/cast/v128.rs', 'src/api/cast/v256.rs', 'src/api/cast/v512.rs'],
  [('FromCast impls', 'src/api/cast/macros.rs')])
p('P17', 'Lossless vector conversions preserve every lane value',
  'Every infallible From/Into conversion offered between two vector types with the same lane count preserves each lane\'s numeric (or boolean) value exactly: converting back by a narrowing cast returns the original lane for every lane value. Conversions between mask types keep true and false.',
  IC, 'all 177 offered conversions, every lane value', 'Sign versus zero extension shows only with the top bit set.',
  ['src/api/from/from_vector.rs', 'src/v16.rs', 'src/v32.rs', 'src/v64.rs', 'src/v128.rs', 'src/v256.rs', 'src/v512.rs'],
  [('From impls', 'src/api/from/from_vector.rs')])
p('P18', 'Bit reinterpretation keeps every bit in place',
  'Reinterpreting a vector as another vector of the same size, or as / from an x86 register type, keeps every bit at its position, for every offered pair of types. A round trip returns the original vector bit-for-bit.',
  IC, 'all 841 offered pairs, every bit pattern', 'Tests round-trip defaults.',
  ['src/api/into_bits/macros.rs', 'src/api/into_bits/arch_specific.rs', 'src/api/into_bits/v16.rs', 'src/api/into_bits/v32.rs', 'src/api/into_bits/v64.rs', 'src/api/into_bits/v128.rs', 'src/api/into_bits/v256.rs', 'src/api/into_bits/v512.rs'],
  [('FromBits impls', 'src/api/into_bits/macros.rs')])
p('P19', 'Bitmask extracts lane i into bit i',
  'The bitmask of a vector has bit i equal to the most significant bit of lane i for every i below the lane count, and zero in all higher bits. It holds for every integer and mask vector at every target-feature level.',
  IC, 'all 72 integer and mask types, every lane value', 'Every lane combination (up to 2^64).',
  ['src/api/bitmask.rs'], [('bitmask', 'src/api/bitmask.rs')])
p('P20', 'Compile-time shuffles pick exactly the requested lanes',
  'shuffle! with one or two vectors and n constant indices produces an n-lane vector of the same element type whose lane k is the lane of the concatenated inputs named by the k-th index. It holds for every vector type, every output lane count for which a vector type exists, and every index list. Each operand expression is evaluated exactly once, the first before the second.',
  ['inputs', 'programs', 'configurations'], 'all types and output lane counts, index lists covering identity, reversal, interleave, upper half and pseudo-random ones, every lane value', 'Tests use a few literal index lists on a few types.',
  ['src/api/shuffle.rs', 'src/codegen/shuffle.rs', 'src/codegen/llvm.rs'],
  [('shuffle! macro arms', 'src/api/shuffle.rs'), ('result type table', 'src/codegen/shuffle.rs')])
p('P21', 'Dynamic shuffles select by index at every feature level',
  'A run-time shuffle returns in lane k, bit-for-bit, the source lane named by index lane k, for every index vector whose lanes are all below the lane count, and does not panic. The result is the same at every target-feature level.',
  IC, 'all 85 types, every index vector in range, every lane value, every feature level', 'Hardware byte shuffles treat high index bits specially; only the build\'s own feature level and a few index vectors are tested.',
  ['src/codegen/shuffle1_dyn.rs', 'src/api/shuffle1_dyn.rs'],
  [('feature-specific implementations', 'src/codegen/shuffle1_dyn.rs')])
p('P22', 'Bit counting is exact in every lane',
  'count_ones, count_zeros, leading_zeros and trailing_zeros return in each lane the exact count for that lane value, with the lane width for an all-zero lane in the zero-run counts.',
  IC, 'all 48 integer types, every lane value', 'Zero, all-ones and sign-bit lanes of each width in each position.',
  ['src/api/bit_manip.rs', 'src/codegen/bit_manip.rs'], [('BitManip impls', 'src/codegen/bit_manip.rs')])
p('P23', 'Byte-order reversal of the whole vector',
  'swap_bytes reverses the byte order of the whole vector: byte k of the result (in memory order) is byte size-1-k of the operand, so lanes come out in reverse order with their bytes reversed. On this little-endian target to_be / from_be equal swap_bytes and to_le / from_le are the identity; swapping twice returns the original vector.',
  IC, 'all 48 integer types, every lane value', 'Every bit must move to its mirrored byte; tests use one byte pattern per type.',
  ['src/api/swap_bytes.rs', 'src/codegen/swap_bytes.rs'], [('swap_bytes', 'src/codegen/swap_bytes.rs')])
p('P24', 'Float math is lane-wise and matches the scalar functions',
  'For every float vector abs, sqrt, mul_add, sin, cos, tanh, exp, ln, powf and the pi-scaled sine/cosine return in each lane the corresponding scalar function of that lane alone; the estimates (square root, reciprocal, reciprocal square root, multiply-add) are within 1.5*2^-12 relative error of the exact function. The named constants hold the correctly rounded mathematical constant in every lane.',
  IC, 'all 7 float types, every lane value', 'Tests evaluate 0, 1 and pi; a lane fed to the wrong place or a wrong constant bit needs distinct values per lane.',
  ['src/api/math/float/', 'src/codegen/math/float/', 'src/codegen/math/float/macros.rs'],
  [('lane plumbing of the math functions', 'src/codegen/math/float/macros.rs'), ('constants', 'src/api/math/float/consts.rs')])
p('P27', 'Pointer-vector arithmetic moves by whole elements',
  'Adding, subtracting or offsetting a pointer vector by a count vector moves each lane by count times the pointee size, with wrap-around in the wrapping forms, and the distance from one pointer vector to another is the signed number of elements from the argument to the receiver in each lane. For zero-sized pointees offsets change nothing and the wrapping distance, which has no value, panics.',
  IC, 'pointers to 0-, 1-, 3-, 4- and 8-byte pointees, every address and count', 'Element size scaling and sign of the distance per lane.',
  ['src/api/minimal/ptr.rs'], [('offset family', 'src/api/minimal/ptr.rs')])
p('P28', 'Gather and scatter touch memory only for enabled lanes',
  'A masked read through a pointer vector loads exactly the lanes whose mask bit is set and returns the fallback lane elsewhere; a masked write stores exactly the enabled lanes, lane i through pointer i. Memory behind disabled lanes is neither read nor written.',
  IC, 'all pointer vector types, element and mask widths of equal lane count, every mask', 'All masks with arbitrary (possibly dangling) pointers in disabled lanes.',
  ['src/api/ptr/gather_scatter.rs'], [('read / write', 'src/api/ptr/gather_scatter.rs')])
p('P33', 'Mask elements behave as booleans',
  'Every mask element type built from a bool tests as that bool, its default is false, and ==, !=, <, <=, >, >=, cmp, partial_cmp, max, min and clamp between mask elements agree with the same comparison of the bools.',
  IC, 'all mask element types, every pair of values', 'The stored representation (0 / all ones, signed) is easy to compare the wrong way round.',
  ['src/masks.rs'], [('mask element impls', 'src/masks.rs')])

EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'extra_props.py')
LEVEL = {}
TECH = {}
NOTE = {}
NA = []
DEF_TECH = ('static dataflow analysis (gated-SSA value numbering) of the compiler IR of every instantiation of the operation, '
            'compared by canonical form with a lane-term specification')
DEF_NOTE = ('Every obligation is discharged by canonical-form identity for all inputs; obligations that a change makes '
            'undecidable are counted as undecided in the evidence and do not alarm. Trusts rustc/LLVM lowering and the '
            "engine's IR semantics.")
for _i in ('P10', 'P11'):
    NOTE[_i] = DEF_NOTE + (' Iterator sums and products are discharged for each length 0-9, 16, 17, 33, 64 and 65 (up to 1030 for '
                           'one type per class), with and without a size hint; longer iterators are not analysed.')
NOTE['P20'] = DEF_NOTE + (' Lane values are symbolic; index lists are compile-time constants, so a fixed set of them per type and '
                          'lane count is analysed (thorough: every pair of output lane and index occurs).')
NOTE['P27'] = DEF_NOTE + ' Pointers and counts are symbolic; the pointee is a type parameter, analysed for eleven pointees of 0 bytes to 32 GiB.'
for _i in ('P05', 'P06', 'P09', 'P12', 'P13', 'P14', 'P15', 'P21', 'P25', 'P26'):
    NOTE[_i] = DEF_NOTE + ' Pointer vectors are generic and are analysed for four pointees (u32, no size, 3 bytes, 32 GiB).'
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())


def main():
    P.sort(key=lambda d: d['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    checks = []
    na = {x['property'] for x in NA}
    for d in P:
        i = d['id']
        if i in na:
            continue
        checks.append(dict(property=i, quick_cmd='python3 engine/check.py %s quick' % i,
                           thorough_cmd='python3 engine/check.py %s thorough' % i,
                           technique=TECH.get(i, DEF_TECH), level=LEVEL.get(i, 'proof'), level_note=NOTE.get(i, DEF_NOTE)))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=NA)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
