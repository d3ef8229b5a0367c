SEEDS = [
dict(id='s01', property='P08', flags='-Ctarget-feature=+avx', edits=[('src/codegen/reductions/mask/x86/avx.rs',
 """                use crate::arch::x86::_mm256_testc_si256;
                #[cfg(target_arch = "x86_64")]
                use crate::arch::x86_64::_mm256_testc_si256;
                _mm256_testc_si256(crate::mem::transmute(self), crate::mem::transmute($id::splat(true))) != 0""",
 """                use crate::arch::x86::_mm256_movemask_ps;
                #[cfg(target_arch = "x86_64")]
                use crate::arch::x86_64::_mm256_movemask_ps;
                _mm256_movemask_ps(crate::mem::transmute(self)) == 0b_1111_1111_i32""")],
 needs='compiled with AVX but not AVX2; a 256-bit mask of 8/16-bit lanes with a false lane other than every fourth byte',
 breaks='all() of m8x32 / m16x16 reports true although a lane is false',
 main='''use packed_simd::*;
fn main() {
    for i in 0..32 {
        let m = m8x32::splat(true).replace(i, false);
        assert!(!std::hint::black_box(m).all(), "lane {}", i);
    }
}
'''),
dict(id='s02', property='P13', edits=[('src/api/slice/from_slice.rs',
 """                    let target_ptr = slice.as_ptr();
                    assert_eq!(target_ptr.align_offset(crate::mem::align_of::<Self>()), 0);
                    Self::from_slice_aligned_unchecked(slice)""",
 """                    let target_ptr = slice.as_ptr();
                    assert_eq!(target_ptr.align_offset(crate::mem::align_of::<Self>().min(32)), 0);
                    Self::from_slice_aligned_unchecked(slice)""")],
 needs='a 512-bit vector type and a slice aligned to 32 but not to 64 bytes',
 breaks='from_slice_aligned accepts an under-aligned slice and performs an aligned load from it',
 main='''use packed_simd::*;
#[repr(align(64))]
struct A([u32; 32]);
fn main() {
    let a = A([1; 32]);
    let r = std::panic::catch_unwind(|| u32x16::from_slice_aligned(std::hint::black_box(&a.0[8..])));
    assert!(r.is_err());
}
'''),
dict(id='s03', property='P16', edits=[('src/api/cast/macros.rs',
 """                x.ne($from_ty::default())
                    .select($id::splat(true), $id::splat(false))""",
 """                x.gt($from_ty::default())
                    .select($id::splat(true), $id::splat(false))""")],
 needs='a signed or float lane below zero (or NaN) cast to a mask',
 breaks='negative lanes cast to false instead of true',
 main='''use packed_simd::*;
fn main() {
    let v = i32x4::new(0, 1, -1, i32::MIN);
    let m: m32x4 = std::hint::black_box(v).cast();
    assert_eq!(m, m32x4::new(false, true, true, true));
}
'''),
dict(id='s04', property='P28', edits=[('src/api/ptr/gather_scatter.rs',
 """                use crate::llvm::simd_gather;
                Simd(simd_gather(value.0, self.0, mask.0))""",
 """                use crate::llvm::{simd_eq, simd_gather, simd_select};
                // gather every lane, then blend
                let every = simd_eq(mask.0, mask.0);
                let all: Simd<[M; $elem_count]> = Simd(every);
                Simd(simd_select(mask.0, simd_gather(value.0, self.0, all.0), value.0))""")],
 needs='a disabled lane whose pointer is not readable',
 breaks='memory behind disabled lanes is read',
 main='''use packed_simd::*;
fn main() {
    let x = [7_i32; 4];
    let p = mptrx4::<i32>::null().replace(1, &x[1] as *const i32 as *mut i32);
    let m = m32x4::splat(false).replace(1, true);
    let r: i32x4 = unsafe { std::hint::black_box(p).read(std::hint::black_box(m), i32x4::splat(3)) };
    assert_eq!(r, i32x4::new(3, 7, 3, 3));
}
'''),
dict(id='s05', property='P05', edits=[('src/api/math/float.rs',
 """                !(self.is_nan() | self.is_infinite())""",
 """                self.gt(Self::MIN) & self.lt(Self::MAX)""")],
 needs='a lane equal to the largest or smallest finite value',
 breaks='is_finite reports false for +-MAX',
 main='''use packed_simd::*;
fn main() {
    assert!(std::hint::black_box(f32x4::MAX).is_finite().all());
}
'''),
dict(id='s06', property='P24', edits=[('src/api/math/float/consts.rs',
 "pub const FRAC_PI_8: $id = $id::splat(core::$elem_ty::consts::FRAC_PI_8);",
 "pub const FRAC_PI_8: $id = $id::splat(core::f32::consts::FRAC_PI_8 as $elem_ty);")],
 needs='the f64 instance of one constant, compared beyond single precision',
 breaks='pi/8 of the f64 vectors has single precision',
 main='''use packed_simd::*;
fn main() {
    assert_eq!(f64x4::FRAC_PI_8, f64x4::splat(std::f64::consts::FRAC_PI_8));
}
'''),
dict(id='s07', property='P14', edits=[('src/api/slice/write_to_slice.rs',
 """                    assert!(slice.len() >= $elem_count);
                    let target_ptr = slice.as_mut_ptr();
                    assert_eq!(target_ptr.align_offset(crate::mem::align_of::<Self>()), 0);
                    self.write_to_slice_aligned_unchecked(slice);""",
 """                    let target_ptr = slice.as_mut_ptr();
                    self.write_to_slice_unaligned(slice);
                    assert_eq!(target_ptr.align_offset(crate::mem::align_of::<Self>()), 0);""")],
 needs='a misaligned slice whose content is inspected after the panic was caught',
 breaks='the slice is overwritten although the call panics',
 main='''use packed_simd::*;
#[repr(align(64))]
struct A([u32; 32]);
fn main() {
    let mut a = A([1; 32]);
    let s = std::panic::AssertUnwindSafe(&mut a.0);
    let r = std::panic::catch_unwind(|| { let s = s; u32x4::splat(9).write_to_slice_aligned(&mut s.0[1..]) });
    assert!(r.is_err());
    assert!(a.0.iter().all(|&x| x == 1));
}
'''),
]
