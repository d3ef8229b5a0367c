p('P25', 'Hashing feeds every lane, in order, once',
  'Hashing an integer or pointer vector feeds the hasher exactly what hashing the slice of its lanes would: the lane count, then the bytes of every lane in lane order, for every lane value. Hashing a mask element feeds the hash of the boolean it represents. Hashing a slice of vectors or mask elements feeds its elements one after the other. Vectors that are equal therefore always hash equally.',
  IC, 'all hashable vector and mask element types, every lane value, every Hasher', 'Tests hash one or two values and compare hashes of equal inputs only.',
  ['src/api/hash.rs', 'src/api/minimal/ptr.rs', 'src/masks.rs'], [('Hash impls', 'src/api/hash.rs')])
p('P26', 'Formatting prints the type name and every lane in order',
  'Formatting a vector (Debug for every vector type; lower/upper hex, octal and binary for integer vectors) writes the name of the vector type, an opening parenthesis, every lane in lane order formatted by the element\'s own implementation of the same trait with the caller\'s options, separated by ", ", and a closing parenthesis. An error of the output sink is returned and stops the output. Mask elements print as their name and boolean.',
  IC, 'all vector types and the five formatting traits, every lane value, every formatting option, every point at which the sink can fail', 'Tests print the default value and a splat; errors of the sink never occur.',
  ['src/api/fmt/debug.rs', 'src/api/fmt/lower_hex.rs', 'src/api/fmt/upper_hex.rs', 'src/api/fmt/octal.rs', 'src/api/fmt/binary.rs', 'src/api/minimal/ptr.rs', 'src/masks.rs'],
  [('formatting impls', 'src/api/fmt/')])
p('P29', 'Only meaningful trait implementations exist between types',
  'For every pair of public types an operator, comparison or conversion trait is implemented only where it is meaningful: operators only between vectors of one type or with their own element type, lossless From only where every lane value is representable, bit reinterpretation only between types of one size and never producing an invalid mask, casts only between equal lane counts, arrays only of the same element and count. Pointer vectors are neither Send nor Sync, float vectors have no Eq, Hash or total order, and every vector type has the marker and comparison traits of its interface.',
  ['programs'], 'all pairs of the 85 vector types and 21 scalar types, 44 traits', 'A test can only use an implementation that exists; the absence of an implementation cannot be executed.',
  ['src/api/from/from_vector.rs', 'src/api/into_bits/', 'src/api/cast/', 'src/api/ops/', 'src/api/cmp/', 'src/lib.rs'],
  [('trait impls stamped out by macros', 'src/api.rs'), ('Simd type', 'src/lib.rs')])
p('P30', 'Misuse is rejected at compile time',
  'Operations with preconditions the compiler cannot check (unchecked indexing and slice access, pointer offsets and distances, gather and scatter) cannot be called outside an unsafe context, and shuffle! lends no unsafe context to its operand expressions. Mixing vectors of different types, masks of a different lane count, non-constant or out-of-range shuffle indices, building masks from anything but booleans, access to the private representation and foreign implementations of the sealed traits do not compile.',
  ['programs'], 'every such operation on every vector type: about 4000 one-line programs, each with a compiling twin', 'A test suite contains only programs that compile.',
  ['src/api/minimal/', 'src/api/slice/', 'src/api/ptr/gather_scatter.rs', 'src/api/shuffle.rs', 'src/masks.rs', 'src/sealed.rs'],
  [('unsafe fn signatures', 'src/api/'), ('macro hygiene of shuffle!', 'src/api/shuffle.rs'), ('Seal', 'src/sealed.rs')])
p('P32', 'Layout, lane count and element type of every vector type',
  'Every vector type has exactly the size of its lanes, is aligned to its size, has no niche, reports its lane count and element type through SimdVector, is the Simd instance of its element array, and its constructors and lane count are usable in constants.',
  ['programs'], 'all 85 vector types and 6 mask element types', 'Tests assert size and alignment of a few types; the facts must hold for each type.',
  ['src/lib.rs', 'src/codegen.rs', 'src/v16.rs', 'src/v32.rs', 'src/v64.rs', 'src/v128.rs', 'src/v256.rs', 'src/v512.rs', 'src/vSize.rs', 'src/vPtr.rs', 'src/masks.rs'],
  [('repr(simd) storage types', 'src/codegen/'), ('type aliases', 'src/v128.rs')])
TECH['P25'] = ('static dataflow analysis of the compiler IR: the sequence of write events into the Hasher is compared, as canonical '
               'terms over the lanes, with the required sequence')
TECH['P26'] = ('static dataflow analysis of the compiler IR: the sequence of events into the Formatter (literals, element formatting '
               'calls, error propagation as decision diagrams over symbolic sink errors) compared with the required sequence')
TECH['P29'] = 'trait-resolution queries over all pairs of public types, answered by rustc\'s type checker and read back as constant tables'
TECH['P30'] = 'compile-fail witnesses: each violating program must be rejected at its line, its twin without the violation must compile'
TECH['P32'] = 'layout and type-identity facts evaluated by the type checker / constant evaluator and compared with the catalogue'
for _i in ('P29', 'P30', 'P32'):
    NOTE[_i] = ('Exhaustive over the frozen catalogue of public types; trusts rustc\'s type, trait and unsafety checking. '
                'Constants are evaluated by the compiler, nothing of the crate is executed.')
p('P31', 'Operations callable without unsafe are free of undefined behaviour',
  'Every operation that can be used without an unsafe block either returns normally with a fully determined result or panics, for every argument: no lane values, index, shift count, slice length or slice alignment makes it read or write outside the memory it was given, use an alignment that was not checked, or return an indeterminate value.',
  IC, 'every safe operation on every vector type (about 11 700), every argument without any precondition', 'Undefined behaviour often computes the expected value in the tested build; tests sample no out-of-contract argument except a few should_panic cases.',
  ['src/api/ops/', 'src/api/minimal/', 'src/api/slice/', 'src/api/shuffle.rs', 'src/codegen/shuffle1_dyn.rs', 'src/api/cast/', 'src/api/reductions/', 'src/codegen/reductions/', 'src/api/select.rs', 'src/api/into_bits/'],
  [('checked wrappers around unchecked operations', 'src/api/minimal/iuf.rs, src/api/slice/'), ('platform intrinsics called from safe functions', 'src/codegen/llvm.rs')])
TECH['P31'] = ('static dataflow analysis of the compiler IR without preconditions: every undefined step (division, out-of-bounds or '
               'under-aligned access, unreachable) must have an unsatisfiable path condition, and no result term may depend on a poison value')
