SEEDS = [
dict(id='s08', property='P31', edits=[('src/api/minimal/iuf.rs',
 """            pub fn replace(self, index: usize, new_value: $elem_ty) -> Self {
                assert!(index < $elem_count);""",
 """            pub fn replace(self, index: usize, new_value: $elem_ty) -> Self {
                debug_assert!(index < $elem_count);""")],
 needs='a build without debug assertions and an index equal to or beyond the lane count',
 breaks='the safe replace() performs an insertion with an out-of-range index (undefined) instead of panicking',
 main='''use packed_simd::*;
fn main() {
    let r = std::panic::catch_unwind(|| std::hint::black_box(i32x4::splat(1)).replace(std::hint::black_box(4), 2));
    assert!(r.is_err());
}
'''),
dict(id='s09', property='P25', edits=[('src/masks.rs',
 """                (self.0 != 0).hash(state);""",
 """                self.0.hash(state);""")],
 needs='a mask element hashed next to the bool it represents',
 breaks='mask elements feed their integer representation to the hasher',
 main='''use packed_simd::*;
use std::hash::{Hash, Hasher};
#[derive(Default)]
struct R(Vec<u8>);
impl Hasher for R {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
fn main() {
    for x in [false, true] {
        let (mut a, mut b) = (R::default(), R::default());
        m32::new(x).hash(&mut a);
        x.hash(&mut b);
        assert_eq!(a.0, b.0);
    }
}
'''),
dict(id='s10', property='P26', edits=[('src/api/fmt/lower_hex.rs',
 """                    self.extract(i).fmt(f)?;""",
 """                    if f.alternate() {
                        write!(f, "{:#x}", self.extract(i))?;
                    } else {
                        write!(f, "{:x}", self.extract(i))?;
                    }""")],
 needs='a width, fill or zero flag in the format string',
 breaks='formatting options other than # are dropped',
 main='''use packed_simd::*;
fn main() {
    assert_eq!(format!("{:04x}", u32x2::new(10, 255)), "u32x2(000a, 00ff)");
}
'''),
dict(id='s11', property='P07', all=True, edits=[('src/api/cmp/partial_ord.rs',
 """                for i in 0..$id::lanes() {
                    if m_eq.extract(i) {
                        continue;""",
 """                let h = $id::lanes() / 2;
                for i in (0..h).chain((h..$id::lanes()).rev()) {
                    if m_eq.extract(i) {
                        continue;""")],
 needs='two vectors equal in their lower half whose upper halves differ in two lanes in opposite directions',
 breaks='the lexicographic order looks at the lanes of the upper half from the last to the first',
 main='''use packed_simd::*;
fn main() {
    let a = i32x4::new(1, 1, 0, 5);
    let b = i32x4::new(1, 1, 5, 0);
    assert!(a.lex_ord() < b.lex_ord());
    assert!(!(b.partial_lex_ord() < a.partial_lex_ord()));
}
'''),
dict(id='s12', property='P27', edits=[('src/api/minimal/ptr.rs',
 """                    crate::mem::transmute(
                        x + (count * crate::mem::size_of::<T>() as isize)
                    )""",
 """                    crate::mem::transmute(
                        x + (count << crate::mem::size_of::<T>().trailing_zeros())
                    )""")],
 needs='a pointee whose size is not a power of two',
 breaks='pointer offsets are scaled by the largest power of two dividing the size',
 main='''use packed_simd::*;
fn main() {
    let a = [[0u8; 3]; 8];
    let p = cptrx2::<[u8; 3]>::splat(a.as_ptr());
    let q = p.wrapping_offset(isizex2::new(1, 4));
    assert_eq!(q.extract(0), &a[1] as *const [u8; 3]);
    assert_eq!(q.extract(1), &a[4] as *const [u8; 3]);
}
'''),
dict(id='s13', property='P29', edits=[('src/api/into_bits/v128.rs',
 """impl_from_bits!(m32x4[test_v128]: m64x2, m128x1);""",
 """impl_from_bits!(m32x4[test_v128]: m64x2, m128x1, i32x4);""")],
 needs='a program that reinterprets an arbitrary integer vector as a mask',
 breaks='masks whose lanes are neither all ones nor all zeros can be made without unsafe',
 main='''#![allow(dead_code)]
use packed_simd::*;
use std::marker::PhantomData;
struct P<T, U>(PhantomData<(T, U)>);
impl<T: FromBits<U>, U> P<T, U> { fn has(&self) -> bool { true } }
trait No { fn has(&self) -> bool { false } }
impl<T, U> No for P<T, U> {}
fn main() {
    assert!(P::<i32x4, m32x4>(PhantomData).has());
    assert!(!P::<m32x4, i32x4>(PhantomData).has());
}
'''),
dict(id='s14', property='P30', edits=[('src/api/minimal/mask.rs',
 """            pub unsafe fn extract_unchecked(self, index: usize) -> bool {
                use crate::llvm::simd_extract;
                let x: $ielem_ty = simd_extract(self.0, index as u32);""",
 """            pub fn extract_unchecked(self, index: usize) -> bool {
                use crate::llvm::simd_extract;
                let x: $ielem_ty = unsafe { simd_extract(self.0, index as u32) };""")],
 needs='a program that calls extract_unchecked of a mask without an unsafe block',
 breaks='unchecked lane access of masks is callable from safe code',
 main='''#![allow(dead_code)]
use packed_simd::*;
struct P<F>(F);
// an unsafe function does not implement Fn
impl<F: Fn(m32x4, usize) -> bool> P<F> { fn safe(&self) -> bool { true } }
trait No { fn safe(&self) -> bool { false } }
impl<F> No for P<F> {}
fn main() {
    assert!(P(m32x4::extract).safe());
    assert!(!P(m32x4::extract_unchecked).safe());
}
'''),
dict(id='s15', property='P02', edits=[('src/api/ops/scalar_shifts.rs',
 """                self >> $id::splat(other as $elem_ty)""",
 """                self >> $id::splat((other & 0xbf) as $elem_ty)""")],
 needs='128-bit lanes shifted right by a scalar whose bit 6 is set while the tests only shift by 0, 1, 2 and 127',
 breaks='bit 6 of a scalar shift count is lost',
 main='''use packed_simd::*;
fn main() {
    assert_eq!(std::hint::black_box(u128x2::splat(1 << 100)) >> std::hint::black_box(68u32), u128x2::splat(1 << 32));
}
'''),
dict(id='s16', property='P04', edits=[('src/api/ops/vector_neg.rs',
 """                Self::splat(-1 as $elem_ty) * self""",
 """                Self::splat(0 as $elem_ty) - self""")],
 needs='a float lane equal to zero, observed through its sign',
 breaks='negating +0.0 yields +0.0',
 main='''use packed_simd::*;
fn main() {
    assert!((-std::hint::black_box(f64x2::splat(0.))).extract(1).is_sign_negative());
}
'''),
dict(id='s17', property='P24', edits=[('src/api/math/float/rsqrte.rs',
 """                    $id::splat(1.) / Simd(simd_fsqrt(self.0))""",
 """                    let y: $id = $id::splat(1.) / Simd(simd_fsqrt(self.0));
                    // one Newton step
                    y * ($id::splat(1.5) - $id::splat(0.5) * self * y * y)""")],
 needs='a lane that is zero or infinite',
 breaks='the reciprocal square root estimate of 0 and infinity is NaN instead of infinity and 0',
 main='''use packed_simd::*;
fn main() {
    let r = std::hint::black_box(f32x4::new(0., 4., f32::INFINITY, 1.)).rsqrte();
    assert_eq!(r.extract(0), f32::INFINITY);
    assert_eq!(r.extract(2), 0.);
}
'''),
]
