SEEDS = [
dict(id='s18', property='P27', edits=[('src/api/minimal/ptr.rs',
 """                        x + (count * crate::mem::size_of::<T>() as isize)""",
 """                        x + (count * crate::mem::size_of::<T>() as u32 as isize)""")],
 needs='a pointee of 4 GiB or more',
 breaks='offsets of pointer vectors to very large objects move by the size modulo 2^32',
 main='''use packed_simd::*;
type Big = [u64; 0x1_0000_0001];
fn main() {
    let p = std::hint::black_box(cptrx2::<Big>::null());
    let q = p.wrapping_add(std::hint::black_box(usizex2::new(1, 3)));
    assert_eq!(q.extract(0) as usize, 0x8_0000_0008);
    assert_eq!(q.extract(1) as usize, 3 * 0x8_0000_0008);
}
'''),
dict(id='s19', property='P10', edits=[('src/api/reductions/integer_arithmetic.rs',
 """                iter.fold($id::splat(0), |a, b| crate::ops::Add::add(a, *b))""",
 """                // four vectors at a time
                let mut iter = iter;
                let mut acc = $id::splat(0);
                let blocks = iter.size_hint().0 / 4;
                for _ in 0..blocks {
                    let mut part = $id::splat(0);
                    for x in iter.by_ref().take(4) {
                        part = part + *x;
                    }
                    acc = part + acc;
                }
                for x in iter.take(3) {
                    acc = acc + *x;
                }
                acc""")],
 needs='summing references from an iterator that does not report its length and yields more than three vectors',
 breaks='vectors after the third are dropped from the sum when the size hint is not exact',
 main='''use packed_simd::*;
fn main() {
    let v = std::hint::black_box([i32x4::splat(1); 9]);
    let s: i32x4 = v.iter().filter(|x| x.extract(0) == 1).sum();
    assert_eq!(s, i32x4::splat(9));
}
'''),
dict(id='s20', property='P06', edits=[('src/api/minimal/ptr.rs',
 """                    use crate::llvm::simd_eq;
                    let a: $usize_ty = crate::mem::transmute(self);""",
 """                    use crate::llvm::simd_eq;
                    if crate::mem::size_of::<T>() == 0 {
                        // all objects of no size share one address
                        return $mask_ty::splat(true);
                    }
                    let a: $usize_ty = crate::mem::transmute(self);""")],
 needs='pointer vectors whose pointee has no size',
 breaks='vectors of different pointers to a zero-sized type compare equal (and unequal at the same time)',
 main='''use packed_simd::*;
fn main() {
    let a = std::hint::black_box(cptrx2::<()>::splat(16 as *const ()));
    let b = std::hint::black_box(cptrx2::<()>::splat(32 as *const ()));
    assert!(!(a == b));
}
'''),
dict(id='s21', property='P04', edits=[('src/api/ops/vector_int_min_max.rs',
 """                self.lt(x).select(self, x)""",
 """                use core::sync::atomic::{AtomicU16, Ordering};
                static USES: AtomicU16 = AtomicU16::new(1);
                if USES.fetch_add(1, Ordering::Relaxed) == 0 {
                    // counter wrapped
                    return x;
                }
                self.lt(x).select(self, x)""")],
 needs='65536 calls before the one that goes wrong',
 breaks='every 65536th lane-wise minimum returns the second operand',
 main='''use packed_simd::*;
fn main() {
    let a = std::hint::black_box(i16x8::splat(-3));
    let b = std::hint::black_box(i16x8::splat(5));
    for _ in 0..200_000 {
        assert_eq!(std::hint::black_box(a).min(b), a);
    }
}
'''),
]
