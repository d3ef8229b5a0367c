"""Type-level properties, decided by rustc's type checker on /repo's sources.

P29  which trait implementations exist, over all pairs of public types: the
     resolution is compiled to constant tables and read back from the IR.
P30  programs that must not compile (each with a compiling twin).
P32  layout, lane counts, element types, const-ness.
"""
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import build
from core import ALL, IU, FL, MK, PT, TYPES, V, Module
from flow import Flow

SCALARS = ['i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'f32', 'f64', 'bool',
           'm8', 'm16', 'm32', 'm64', 'm128', 'msize']


def table(wd, cfg, name, src, sym):
    """bytes of a constant"""
    txt = build.compile_ir(wd, cfg, name, src, [sym], optimize=False)
    m = Module(txt)
    fl = Flow(m)
    g = fl.gptr(sym)
    o = fl.objs[g.obj]
    if o.init is None:
        raise RuntimeError('table %s not constant' % sym)
    out = []
    for i in range(o.size):
        b = fl.c.isc(fl.load_bits({}, g.obj, i, 8, 1))
        out.append(b)
    return out


def configs(tier):
    return ['sse2', 'avx2'] if tier != 'thorough' else ['sse2', 'ssse3', 'sse41', 'sse42', 'avx', 'avx2', 'avx512', 'checked']


def tables(wd, cfgs, name, src):
    with ThreadPoolExecutor(4) as ex:
        return list(zip(cfgs, ex.map(lambda c: table(wd, c, name, src, 'TABLE'), cfgs)))


PROBE = '''
use core::marker::PhantomData as PD;
pub trait No { const V: bool = false; }
'''


def unary(tr, path):
    return '''
pub struct U%s<T>(PD<T>);
impl<T> No for U%s<T> {}
impl<T: %s> U%s<T> { pub const V: bool = true; }
''' % (tr, tr, path, tr)


def binary(tr, path):
    """does A: path<B>"""
    return '''
pub struct B%s<A, B>(PD<A>, PD<B>);
impl<A, B> No for B%s<A, B> {}
impl<A: %s<B>, B> B%s<A, B> { pub const V: bool = true; }
''' % (tr, tr, path, tr)


OPS = {'Add': 'iuf', 'Sub': 'iuf', 'Mul': 'iuf', 'Div': 'iuf', 'Rem': 'iuf', 'BitAnd': 'ium', 'BitOr': 'ium',
       'BitXor': 'ium', 'Shl': 'iu', 'Shr': 'iu'}


def repr_in(a, b):
    """every value of element type a is representable in b"""
    def kind(x):
        m = re.match(r'([iufm])(\d+|size)$', x)
        return m.group(1), 64 if m.group(2) == 'size' else int(m.group(2))
    (ka, wa), (kb, wb) = kind(a), kind(b)
    if ka == 'm' or kb == 'm':
        return ka == kb
    if 'size' in a and a != b and not (kb == ka and 'size' in b):
        # pointer-sized: at most 64 bits here, at least 16 elsewhere
        pass
    mant = {32: 24, 64: 53}
    if kb == 'f':
        return wa <= wb if ka == 'f' else (wa - (ka == 'i')) <= mant[wb]
    if ka == 'f':
        return False
    if ka == kb:
        return wa <= wb
    return ka == 'u' and wa < wb


def cells():
    """(expression, required value or None, description)"""
    out = []

    def no(expr, what, why):
        out.append((expr, False, what, why))

    def yes(expr, what, why):
        out.append((expr, True, what, why))
    R = {v.name: v.rust for v in ALL}
    # marker and comparison traits
    for v in ALL:
        for tr in ('Copy', 'Clone', 'Default', 'Debug', 'PartialEq'):
            yes('U%s::<%s>::V' % (tr, v.rust), '%s: %s' % (v, tr), 'part of the interface of every vector')
        if v.cls == 'p':
            for tr in ('Send', 'Sync'):
                no('U%s::<%s>::V' % (tr, v.rust), '%s: %s' % (v, tr), 'raw pointers are not %s' % tr)
        else:
            for tr in ('Send', 'Sync', 'Unpin'):
                yes('U%s::<%s>::V' % (tr, v.rust), '%s: %s' % (v, tr), 'plain data')
        if v.cls == 'f':
            for tr in ('Eq', 'Hash', 'Ord', 'Not'):
                no('U%s::<%s>::V' % (tr, v.rust), '%s: %s' % (v, tr), 'floats have no %s' % tr)
            yes('UNeg::<%s>::V' % v.rust, '%s: Neg' % v, 'interface')
            no('BPartialOrd::<LexicographicallyOrdered<{0}>, LexicographicallyOrdered<{0}>>::V'.format(v.rust),
               'LexicographicallyOrdered<%s>: PartialOrd' % v, 'no total order of floats')
            for tr in ('LowerHex', 'UpperHex', 'Octal', 'Binary'):
                no('U%s::<%s>::V' % (tr, v.rust), '%s: %s' % (v, tr), 'integer formatting')
        else:
            yes('UEq::<%s>::V' % v.rust, '%s: Eq' % v, 'equality of the lanes is reflexive')
            if v.cls in 'iu':
                yes('UHash::<%s>::V' % v.rust, '%s: Hash' % v, 'interface')
                for tr in ('LowerHex', 'UpperHex', 'Octal', 'Binary'):
                    yes('U%s::<%s>::V' % (tr, v.rust), '%s: %s' % (v, tr), 'interface')
            if v.cls in 'um':
                no('UNeg::<%s>::V' % v.rust, '%s: Neg' % v, 'no sign')
            if v.cls in 'iu' or v.cls == 'm':
                yes('UNot::<%s>::V' % v.rust, '%s: Not' % v, 'interface')
        no('UOrd::<%s>::V' % v.rust, '%s: Ord' % v, 'order of vectors is explicit (lex_ord)')
        no('BPartialOrd::<{0}, {0}>::V'.format(v.rust), '%s: PartialOrd' % v, 'order of vectors is explicit (lex_ord)')
    # conversions between every two vector types
    for a in ALL:
        for b in ALL:
            if a is b:
                continue
            fr = 'BFrom::<%s, %s>::V' % (b.rust, a.rust)
            ok = a.n == b.n and a.cls != 'p' and b.cls != 'p' and repr_in(a.elem, b.elem)
            if not ok:
                no(fr, '%s: From<%s>' % (b, a), 'not lossless lane by lane')
                no('BInto::<%s, %s>::V' % (a.rust, b.rust), '%s: Into<%s>' % (a, b), 'not lossless lane by lane')
            fb = 'BFromBits::<%s, %s>::V' % (b.rust, a.rust)
            okb = a.bytes == b.bytes and (b.cls != 'm' or a.cls == 'm' and a.w % b.w == 0)
            if not okb:
                no(fb, '%s: FromBits<%s>' % (b, a), 'sizes differ' if a.bytes != b.bytes else
                   'would make a mask whose lanes are neither all-ones nor all-zeros')
            if a.n != b.n:
                no('BFromCast::<%s, %s>::V' % (b.rust, a.rust), '%s: FromCast<%s>' % (b, a), 'lane counts differ')
            if b.cls == 'p' or a.cls == 'p':
                no('BPartialEq::<%s, %s>::V' % (a.rust, b.rust), '%s: PartialEq<%s>' % (a, b), 'different types')
            else:
                no('BPartialEq::<%s, %s>::V' % (a.rust, b.rust), '%s: PartialEq<%s>' % (a, b), 'different types')
            if a.n == b.n or a.elem == b.elem or a.bytes == b.bytes:
                for op in OPS:
                    no('B%s::<%s, %s>::V' % (op, a.rust, b.rust), '%s: %s<%s>' % (a, op, b), 'operand types differ')
                    no('B%sAssign::<%s, %s>::V' % (op, a.rust, b.rust), '%s: %sAssign<%s>' % (a, op, b), 'operand types differ')
    # registers of the architecture
    for r, by in (('__m128', 16), ('__m128i', 16), ('__m128d', 16), ('__m256', 32), ('__m256i', 32), ('__m256d', 32)):
        R = 'core::arch::x86_64::' + r
        for v in ALL:
            if v.cls in 'mp' or v.bytes != by:
                no('BFromBits::<%s, %s>::V' % (v.rust, R), '%s: FromBits<%s>' % (v, r), 'sizes differ' if v.bytes != by else
                   'would make a mask whose lanes are neither all-ones nor all-zeros' if v.cls == 'm' else 'pointers from bits')
            if v.bytes != by:
                no('BFromBits::<%s, %s>::V' % (R, v.rust), '%s: FromBits<%s>' % (r, v), 'sizes differ')
            no('BFrom::<%s, %s>::V' % (v.rust, R), '%s: From<%s>' % (v, r), 'reinterpretation is explicit')
    # operators
    for v in ALL:
        for op, cl in OPS.items():
            f = yes if v.cls in cl else no
            why = 'interface' if v.cls in cl else 'operator has no meaning for these lanes'
            f('B{0}::<{1}, {1}>::V'.format(op, v.rust), '%s: %s' % (v, op), why)
            f('B{0}Assign::<{1}, {1}>::V'.format(op, v.rust), '%s: %sAssign' % (v, op), why)
            for s in SCALARS:
                good = v.cls in cl and (s == 'u32' if op in ('Shl', 'Shr') else
                                        s == ('bool' if v.cls == 'm' else v.elem))
                (yes if good else no)('B%s::<%s, %s>::V' % (op, v.rust, s), '%s: %s<%s>' % (v, op, s),
                                      'interface' if good else 'scalar operand of another type')
                back = good and op not in ('Shl', 'Shr')
                (yes if back else no)('B%s::<%s, %s>::V' % (op, s, v.rust), '%s: %s<%s>' % (s, op, v),
                                      'interface' if back else 'scalar operand of another type')
    # arrays
    for a in ALL:
        for b in ALL:
            if a.cls == 'p' or b.cls == 'p' or a.bytes != b.bytes:
                continue
            same = a.elem == b.elem and a.n == b.n
            (yes if same else no)('BFrom::<%s, [%s; %d]>::V' % (a.rust, b.elem, b.n), '%s: From<[%s; %d]>' % (a, b.elem, b.n),
                                  'interface' if same else 'array of another type')
    for m in ('m8', 'm16', 'm32', 'm64', 'm128', 'msize'):
        w = 64 if m == 'msize' else int(m[1:])
        for tr in ('Copy', 'Default', 'Eq', 'Ord', 'Hash', 'Send', 'Sync'):
            yes('U%s::<%s>::V' % (tr, m), '%s: %s' % (m, tr), 'interface')
        for s in SCALARS:
            if s[0] != 'm':
                no('BFrom::<%s, %s>::V' % (m, s), '%s: From<%s>' % (m, s), 'masks are built with new') if s != 'bool' else 0
    # sealed traits: no foreign type implements them
    for t in ('u8', 'Foreign', '[u8; 3]'):
        no('USimdVector::<%s>::V' % t, '%s: SimdVector' % t, 'sealed')
    return out


TRAITS1 = dict(Copy='Copy', Clone='Clone', Default='Default', Debug='core::fmt::Debug', PartialEq='PartialEq', Send='Send',
               Sync='Sync', Unpin='Unpin', Eq='Eq', Hash='core::hash::Hash', Ord='Ord', Not='core::ops::Not',
               Neg='core::ops::Neg', LowerHex='core::fmt::LowerHex', UpperHex='core::fmt::UpperHex',
               Octal='core::fmt::Octal', Binary='core::fmt::Binary', SimdVector='SimdVector')
TRAITS2 = dict(From='From', Into='Into', FromBits='FromBits', FromCast='FromCast', PartialEq='PartialEq',
               PartialOrd='PartialOrd')
for _o in OPS:
    TRAITS2[_o] = 'core::ops::' + _o
    TRAITS2[_o + 'Assign'] = 'core::ops::' + _o + 'Assign'


def p29(tier, wd, viol, ev):
    cs = cells()
    src = PROBE + 'pub struct Foreign;\n' + ''.join(unary(k, p) for k, p in TRAITS1.items()) + \
        ''.join(binary(k, p) for k, p in TRAITS2.items())
    src += '#[no_mangle] pub static TABLE: [bool; %d] = [\n%s\n];\n' % (len(cs), ',\n'.join(c[0] for c in cs))
    ny = sum(1 for c in cs if c[1])
    cfgs = configs(tier)
    for cfg, got in tables(wd, cfgs, 'P29', src):
        if len(got) != len(cs):
            raise RuntimeError('table has %d entries, expected %d' % (len(got), len(cs)))
        if not (any(got) and not all(got)):
            raise RuntimeError('trait probe does not discriminate')
        for g, (e, want, what, why) in zip(got, cs):
            if bool(g) != want:
                viol.append(dict(key=what, config=cfg, what='%s is %s, but must %sexist (%s)' % (
                    what, 'implemented' if g else 'not implemented', '' if want else 'not ', why)))
    ev['coverage'] = dict(obligations=len(cs) * len(cfgs), discharged=len(cs) * len(cfgs) - len(viol), undecided=0, operations=len(cs),
                          configurations=cfgs,
                          required=ny, forbidden=len(cs) - ny,
                          rule='rustc resolves each `T: Trait<U>` over all pairs of public vector types; the result must be '
                               'the one that compatibility of the types (lane count, size, element values, mask '
                               'representation) demands',
                          samples=['%s: required %s' % (c[2], c[1]) for c in cs[::max(1, len(cs) // 12)]],
                          checker_cmd='python3 engine/check.py P29 ' + tier,
                          trusted_base=['rustc trait resolution', 'engine/catalog.json', 'engine/witness.py rules'])


# ----------------------------------------------------------- compile-fail
def snippets():
    """(group, key, good body, bad body, accepted error codes, why)"""
    out = []

    def add(group, key, params, good, bad, codes, why):
        out.append(dict(group=group, key=key, params=params, good=good, bad=bad, codes=codes, why=why))
    for v in ALL:
        n = v.rust
        e = v.scalar
        T = ('<%s>' % n) if v.cls == 'p' else n

        def uns(call, params, v=v):
            add('unsafe', '%s %s' % (call.split('(')[0].split('::')[-1].split('.')[-1], v), params,
                'unsafe { let _ = %s; }' % call, 'let _ = %s;' % call, {'E0133'}, 'has a precondition the compiler cannot check')
        uns('a.extract_unchecked(0)', 'a: %s' % n)
        uns('a.replace_unchecked(0, x)', 'a: %s, x: %s' % (n, e))
        if v.cls != 'm':
            for al in ('aligned', 'unaligned'):
                uns('%s::from_slice_%s_unchecked(s)' % (T, al), 's: &[%s]' % v.elem)
                uns('a.write_to_slice_%s_unchecked(s)' % al, 'a: %s, s: &mut [%s]' % (n, v.elem))
        if v.cls == 'p':
            for f in ('offset', ):
                uns('a.%s(c)' % f, 'a: %s, c: %s' % (n, v.is_))
            for f in ('add', 'sub'):
                uns('a.%s(c)' % f, 'a: %s, c: %s' % (n, v.us))
            uns('a.offset_from(b)', 'a: %s, b: %s' % (n, n))
            if 'u32x%d' % v.n in TYPES:
                uns('a.read(m, x)', 'a: %s, m: %s, x: u32x%d' % (n, 'm32x%d' % v.n, v.n))
                if v.mut:
                    uns('a.write(m, x)', 'a: %s, m: %s, x: u32x%d' % (n, 'm32x%d' % v.n, v.n))
    # operands of one operation have one type
    for v in ALL:
        others = [o for o in ALL if o is not v and (o.n == v.n or o.elem == v.elem) and o.cls == v.cls][:3]
        mk = TYPES.get(v.mask)
        for o in others:
            for f in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
                if v.cls == 'f' or True:
                    add('type', '%s.%s(%s)' % (v, f, o), 'a: %s, b: %s, c: %s' % (v.rust, v.rust, o.rust),
                        'let _ = a.%s(b);' % f, 'let _ = a.%s(c);' % f, {'E0308'}, 'operands of different types')
            if v.cls in 'iuf':
                for f in ('min', 'max'):
                    add('type', '%s.%s(%s)' % (v, f, o), 'a: %s, b: %s, c: %s' % (v.rust, v.rust, o.rust),
                        'let _ = a.%s(b);' % f, 'let _ = a.%s(c);' % f, {'E0308'}, 'operands of different types')
        for m in MK:
            if m.n != v.n:
                if v.cls in 'iufm':
                    good = next(x for x in MK if x.n == v.n)
                    add('type', 'select of %s by %s' % (v, m), 'm: %s, k: %s, a: %s' % (m.rust, good.rust, v.rust),
                        'let _: %s = k.select(a, a);' % v.rust, 'let _: %s = m.select(a, a);' % v.rust,
                        {'E0308', 'E0277', 'E0271', 'E0599'}, 'mask of another lane count')
                if v.cls == 'p' and 'u32x%d' % v.n in TYPES:
                    add('type', 'read of %s by %s' % (v, m), 'm: %s, k: m32x%d, a: %s, x: u32x%d' % (m.rust, v.n, v.rust, v.n),
                        'unsafe { let _ = a.read(k, x); }', 'unsafe { let _ = a.read(m, x); }',
                        {'E0308', 'E0277', 'E0271', 'E0599'}, 'mask of another lane count')
    for m in ('m8', 'm16', 'm32', 'm64', 'm128', 'msize'):
        ity = 'i' + m[1:]
        add('type', 'construct %s' % m, 'x: %s, b: bool' % ity, 'let _ = %s::new(b);' % m, 'let _ = %s(x);' % m,
            {'E0423', 'E0603', 'E0425', 'E0532'}, 'would make a mask element that is neither true nor false')
        add('priv', 'field of %s' % m, 'x: %s' % m, 'let _ = x.test();', 'let _ = x.0;',
            {'E0616', 'E0609'}, 'the representation of a mask element is private')
    for v in MK:
        add('type', 'replace in %s takes a bool' % v, 'a: %s, b: bool, x: i8' % v, 'let _ = a.replace(0, b);',
            'let _ = a.replace(0, x);', {'E0308'}, 'mask lanes are booleans')
        add('type', 'splat of %s takes a bool' % v, 'b: bool, x: i8' , 'let _ = %s::splat(b);' % v,
            'let _ = %s::splat(x);' % v, {'E0308'}, 'mask lanes are booleans')
        add('type', 'write_to_slice of %s' % v, 'a: %s, s: &mut [bool]' % v, 'let _ = a;',
            'a.write_to_slice_unaligned(s);', {'E0599'}, 'masks have no byte-wise stores')
        add('type', 'from_slice of %s' % v, 's: &[i8]', 'let _ = s;', 'let _ = %s::from_slice_unaligned(s);' % v, {'E0599'},
            'a mask read from arbitrary memory would not be all-ones/all-zeros')
    for v in ALL:
        if v.cls == 'f':
            add('type', 'lex_ord of %s' % v, 'a: %s' % v, 'let _ = a;',
                'let _ = core::cmp::Ord::cmp(&a.lex_ord(), &a.lex_ord());', {'E0599', 'E0277'}, 'floats have no total order')
    for tr, items in (('SimdVector', 'type Element = u8; const LANES: usize = 1; type LanesType = [u32; 1];'),
                      ('Mask', 'fn test(&self) -> bool { true }')):
        add('impl', 'foreign impl of %s' % tr, '', 'struct F; impl Default for F { fn default() -> F { F } }',
            'struct F; impl %s for F { %s }' % (tr, items), {'E0277'}, 'the trait is sealed')
    add('res', 'path of the sealing trait', '', 'fn f<T: SimdVector>() {}', 'fn f<T: packed_simd::sealed::Seal>() {}',
        {'E0603'}, 'the sealing trait cannot be named')
    # const-ness of shuffles
    for a, n in (('i32x4', 4), ('u8x16', 16), ('f64x2', 2), ('m32x8', 8), ('u64x4', 4)):
        idx = ', '.join(['0'] * n)
        add('cg:' + a, 'shuffle! index out of range, one %s' % a, 'a: %s, b: %s' % (a, a), 'let _: %s = shuffle!(a, b, [%s]);' % (a, idx),
            'let x: %s = shuffle!(a, b, [%s]); core::hint::black_box(&x);' % (a, ', '.join(['0'] * (n - 1) + [str(2 * n)])),
            {None, 'E0080', 'E0511'}, 'index beyond both operands')
    for a, b in (('i32x4', 'u32x4'), ('i32x4', 'i32x8'), ('f32x4', 'i32x4'), ('m32x4', 'i32x4')):
        add('type', 'shuffle! of %s and %s' % (a, b), 'a: %s, b: %s' % (a, b), 'let _: %s = shuffle!(a, a, [0, 1, 2, 3]);' % a,
            'let _: %s = shuffle!(a, b, [0, 1, 2, 3]);' % a, {'E0308', 'E0277'}, 'operands of different types')
    add('type', 'shuffle! with a runtime index', 'a: i32x4, i: u32', 'let _: i32x4 = shuffle!(a, a, [0, 1, 2, 3]);',
        'let _: i32x4 = shuffle!(a, a, [i, 1, 2, 3]);', {'E0435'}, 'indices are compile-time constants')
    for k, arr in ((2, 'u32x2'), (4, 'u32x4'), (8, 'u32x8'), (16, 'u32x16'), (32, 'u16x32'), (64, 'u8x64')):
        idx = ', '.join(str(i) for i in range(k))
        add('unsafe', 'operand of shuffle! to %d lanes' % k, 'p: *const %s, q: %s' % (arr, arr),
            'unsafe { let _: %s = shuffle!(*p, *p, [%s]); }' % (arr, idx), 'let _: %s = shuffle!(*p, q, [%s]);' % (arr, idx), {'E0133'},
            'the macro must not lend its unsafe block to its operands')
        add('unsafe', 'second operand of shuffle! to %d lanes' % k, 'p: *const %s, q: %s' % (arr, arr),
            'unsafe { let _: %s = shuffle!(*p, *p, [%s]); }' % (arr, idx), 'let _: %s = shuffle!(q, *p, [%s]);' % (arr, idx), {'E0133'},
            'the macro must not lend its unsafe block to its operands')
        add('unsafe', 'single operand of shuffle! to %d lanes' % k, 'p: *const %s' % arr,
            'unsafe { let _: %s = shuffle!(*p, [%s]); }' % (arr, idx), 'let _: %s = shuffle!(*p, [%s]);' % (arr, idx), {'E0133'},
            'the macro must not lend its unsafe block to its operands')
    return out


def cargo_json(wd, name, src):
    d = os.path.join(wd, 'crate-' + name)
    build.write_crate(d, build.PRELUDE + src)
    e = build.env('')
    e['CARGO_TARGET_DIR'] = os.path.join(wd, 'target-sse2')
    deps = os.path.join(e['CARGO_TARGET_DIR'], 'release', 'deps')
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith(('probe-', 'libprobe-')):
                os.remove(os.path.join(deps, f))
    r = subprocess.run(['cargo', 'build', '--offline', '--release', '--message-format=json', '--manifest-path',
                        os.path.join(d, 'Cargo.toml')], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=600)
    errs = []      # (line, code, message)
    foreign = []

    def root(sp):
        while sp.get('expansion') and 'src/lib.rs' not in sp['file_name'] or build.REPO in sp['file_name']:
            if not sp.get('expansion'):
                break
            sp = sp['expansion']['span']
        return sp
    for ln in r.stdout.split('\n'):
        if not ln.startswith('{'):
            continue
        j = json.loads(ln)
        if j.get('reason') != 'compiler-message' or j['message']['level'] != 'error':
            continue
        m = j['message']
        if j['target']['name'] != 'probe':
            foreign.append(m.get('rendered') or m['message'])
            continue
        code = m['code']['code'] if m.get('code') else None
        for sp in m['spans']:
            if sp['is_primary']:
                x = root(sp)
                errs.append((x['line_start'], code, m['message']))
    return r.returncode, errs, foreign, r.stderr


def p30(tier, wd, viol, ev):
    sn = snippets()
    base = (build.PRELUDE.count('\n') + 1)
    # compiling twins
    src = ''.join('pub fn t%d(%s) { %s }\n' % (i, s['params'], s['good']) for i, s in enumerate(sn))
    rc, errs, foreign, log = cargo_json(wd, 'P30-good', src)
    if foreign:
        viol.append(dict(key='<crate>', config='sse2', what='the crate does not compile', detail=foreign[0][:800]))
        return
    for ln, code, msg in errs:
        i = ln - base
        if 0 <= i < len(sn):
            viol.append(dict(key='twin of ' + sn[i]['key'], config='sse2',
                             what='valid use no longer compiles: %s' % msg))
    if rc and not viol:
        raise RuntimeError('twins: ' + log[-2000:])
    if viol:
        ev['coverage'] = dict(obligations=len(sn), discharged=0, explanation='valid uses do not compile')
        return
    groups = {}
    for s in sn:
        groups.setdefault(s['group'], []).append(s)
    n_ok = 0
    runs = 0
    for g, ss in groups.items():
        rest = list(ss)
        # an error of an early phase hides those of later ones: repeat with what was not rejected yet
        while rest:
            src = ''.join('pub fn w%d(%s) { %s }\n' % (i, s['params'], s['bad']) for i, s in enumerate(rest))
            rc, errs, foreign, log = cargo_json(wd, 'P30-bad', src)
            runs += 1
            if rc == 0:
                for s in rest:
                    viol.append(dict(key=s['key'], config='sse2', what='`%s` with (%s) compiles, but must be rejected: %s' % (
                        s['bad'], s['params'], s['why'])))
                break
            got = {}
            for ln, code, msg in errs:
                got.setdefault(ln - base, []).append((code, msg))
            left = []
            for i, s in enumerate(rest):
                es = got.get(i, [])
                if len(rest) == 1 and errs:
                    es = [e[1:] for e in errs]      # reported inside the macro or intrinsic
                if not es:
                    left.append(s)
                    continue
                n_ok += 1
                if not any(c in s['codes'] for c, _ in es):
                    ev.setdefault('notes', []).append('%s rejected with %s' % (s['key'], es[0]))
            if len(left) == len(rest):
                raise RuntimeError('diagnostics of group %s cannot be attributed: %s' % (g, log[-1500:]))
            rest = left
    ev['coverage'] = dict(obligations=len(sn), discharged=n_ok, undecided=0, operations=len(sn),
                          groups={g: len(s) for g, s in groups.items()}, compilations=runs + 1, notes=ev.pop('notes', [])[:20],
                          rule='each offending line must be rejected by rustc at that line while its twin, differing in the '
                               'offending expression only, compiles',
                          samples=['%s: `%s` rejected' % (s['key'], s['bad']) for s in sn[::max(1, len(sn) // 12)]],
                          checker_cmd='python3 engine/check.py P30 ' + tier,
                          trusted_base=['rustc type and unsafety checking', 'engine/witness.py snippets'])


def p32(tier, wd, viol, ev):
    rows = []
    src = '''
pub const fn same<A: 'static, B: 'static>() -> bool { Same::<A, B>::V }
pub struct Same<A, B>(core::marker::PhantomData<(A, B)>);
pub trait NotSame { const V: bool = false; }
impl<A, B> NotSame for Same<A, B> {}
impl<A> Same<A, A> { pub const V: bool = true; }
'''
    vals = []

    def row(expr, want, what):
        rows.append((want, what))
        vals.append(expr)
    for v in ALL:
        T = v.rust
        row('core::mem::size_of::<%s>()' % T, v.bytes, 'size of %s' % v)
        row('core::mem::align_of::<%s>()' % T, v.bytes, 'alignment of %s' % v)
        row('<%s as SimdVector>::LANES' % T, v.n, 'LANES of %s' % v)
        row('Same::<<%s as SimdVector>::Element, %s>::V as usize' % (T, v.elem), 1, 'element type of %s' % v)
        row('Same::<<%s as SimdVector>::LanesType, [u32; %d]>::V as usize' % (T, v.n), 1, 'lanes type of %s' % v)
        row('core::mem::size_of::<Option<%s>>()' % T, 2 * v.bytes, 'no niche in %s' % v)
        if v.cls != 'p':
            row('Same::<%s, Simd<[%s; %d]>>::V as usize' % (T, v.elem, v.n), 1, '%s is Simd<[%s; %d]>' % (v, v.elem, v.n))
            row('{ const L: usize = %s::lanes(); L }' % T, v.n, 'const lanes() of %s' % v)
            a = 'true' if v.cls == 'm' else '1.' if v.cls == 'f' else '1'
            row('{ const C: %s = %s::new(%s); let _ = C; core::mem::size_of::<%s>() }' % (T, T, ', '.join([a] * v.n), T), v.bytes,
                'const new of %s' % v)
            row('{ const C: %s = %s::splat(%s); let _ = C; core::mem::size_of::<%s>() }' % (T, T, a, T), v.bytes, 'const splat of %s' % v)
        else:
            row('{ const L: usize = <%s>::lanes(); L }' % T, v.n, 'const lanes() of %s' % v)
            row('{ const C: %s = <%s>::null(); let _ = C; core::mem::size_of::<%s>() }' % (T, T, T), v.bytes, 'const null of %s' % v)
    for m in ('m8', 'm16', 'm32', 'm64', 'm128', 'msize'):
        w = 8 if m == 'msize' else int(m[1:]) // 8
        row('core::mem::size_of::<%s>()' % m, w, 'size of %s' % m)
    src += '#[no_mangle] pub static TABLE: [usize; %d] = [\n%s\n];\n' % (len(vals), ',\n'.join(vals))
    try:
        cfgs = configs(tier)
        res = tables(wd, cfgs, 'P32', src)
    except build.BuildError as e:
        base = build.PRELUDE.count('\n') + src[:src.index('TABLE')].count('\n') + 2
        keys = []
        for m in re.finditer(r'^\s*--> (\S+?):(\d+)', e.log, re.M):
            if m.group(1).endswith('src/lib.rs') and build.REPO not in m.group(1):
                i = int(m.group(2)) - base
                if 0 <= i < len(rows) and rows[i][1] not in keys:
                    keys.append(rows[i][1])
        for k in keys:
            viol.append(dict(key=k, config='sse2', what='does not compile', detail='\n'.join(
                re.findall(r'^error.*(?:\n.*){0,4}', e.log, re.M)[:2])))
        if not keys:
            raise
        ev['coverage'] = dict(obligations=len(rows), explanation='does not compile')
        return
    for cfg, got in res:
        if len(got) != 8 * len(rows):
            raise RuntimeError('table size')
        for i, (want, what) in enumerate(rows):
            x = sum(b << 8 * k for k, b in enumerate(got[8 * i:8 * i + 8]))
            if x != want:
                viol.append(dict(key=what, config=cfg, what='%s is %d, must be %d' % (what, x, want)))
    ev['coverage'] = dict(obligations=len(rows) * len(cfgs), discharged=len(rows) * len(cfgs) - len(viol), undecided=0, operations=len(rows),
                          configurations=cfgs,
                          rule='layout and type facts evaluated by rustc as constants, compared with lanes × element width',
                          samples=[r[1] for r in rows[::max(1, len(rows) // 12)]],
                          checker_cmd='python3 engine/check.py P32 ' + tier,
                          trusted_base=['rustc layout computation', 'engine/catalog.json'])


RUN = {'P29': p29, 'P30': p30, 'P32': p32}


def run(pid, tier, wd, viol, ev):
    RUN[pid](tier, wd, viol, ev)
