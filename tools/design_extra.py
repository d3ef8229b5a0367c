HOW['P25'] = ('calls into the Hasher are events; concatenated bytes of all events = lane count ++ lanes (wire identity). How the '
              'bytes are split over calls is not part of the claim')
HOW['P26'] = ('calls into the Formatter are events: literal pieces (merged), element formatting calls (trait + lane value + '
              'caller\'s options); compared with a reference loop over the lane array analysed in the same wrapper. Sink errors are '
              'symbolic booleans: returned error = OR of all errors of calls reached')
WITNESS = '''* **P29** - `T: Trait<U>` is asked for every pair of public types (85 vector types, 21 scalars, 44 traits; about 130 000 cells)
  through an inherent-const-shadows-trait-const probe, so that rustc answers each question at type-check time; the table
  is read back from the IR of the probe crate.  Oracle: rules over (lane count, bit width, element kind) in
  `witness.py:cells`.  Cells on which the rules take no position (offered conversions that are allowed but not demanded)
  are not asked; what they *do* is P15-P18.
* **P30** - about 4 000 one-line misuses, each with a twin that differs only in the offending expression.  All twins must
  compile; each misuse must be rejected *at its line*.  rustc stops after the first phase with errors, so the un-rejected
  rest is recompiled until it is empty (all rejected) or compiles (violation).
* **P32** - size, alignment, niche, LANES, element type, `Simd<[T; N]>` identity, const constructors: 844 constants.

These take 10-30 s; P29 and P32 are asked under `sse2` and `avx2` (quick) or all eight configurations (thorough).'''
HOW['P31'] = ('the obligations of P01-P25, P27, P33 whose wrapper contains no `unsafe`, with every precondition dropped: decision diagram of '
              '(reachable, not panicking, undefined) = false for each undefined step; each result term evaluates equally under two values of poison')
