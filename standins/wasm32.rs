//! Stand-ins for `std::arch::wasm32`: the vector operations a bitboard may
//! use, as the WebAssembly specification states them, so that the library's
//! wasm32 code runs on this machine.
#![allow(dead_code, non_camel_case_types, clippy::all)]

#[derive(Clone, Copy)]
#[repr(C, align(16))]
pub struct v128([u64; 2]);

impl ::std::fmt::Debug for v128 {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        write!(f, "v128({:#x}, {:#x})", self.0[0], self.0[1])
    }
}

macro_rules! bits {
    ($($f:ident |$a:ident, $b:ident| $e:expr;)*) => {$(
        #[inline(always)]
        pub const fn $f(x: v128, y: v128) -> v128 {
            let ($a, $b) = (x.0[0], y.0[0]);
            let low = $e;
            let ($a, $b) = (x.0[1], y.0[1]);
            v128([low, $e])
        }
    )*};
}
bits! {
    v128_and |a, b| a & b;
    v128_or |a, b| a | b;
    v128_xor |a, b| a ^ b;
    v128_andnot |a, b| a & !b;
    u64x2_add |a, b| a.wrapping_add(b);
    i64x2_add |a, b| a.wrapping_add(b);
    u64x2_sub |a, b| a.wrapping_sub(b);
    i64x2_sub |a, b| a.wrapping_sub(b);
    u64x2_mul |a, b| a.wrapping_mul(b);
    i64x2_mul |a, b| a.wrapping_mul(b);
    u64x2_eq |a, b| if a == b { u64::MAX } else { 0 };
    i64x2_eq |a, b| if a == b { u64::MAX } else { 0 };
    u64x2_ne |a, b| if a != b { u64::MAX } else { 0 };
    i64x2_ne |a, b| if a != b { u64::MAX } else { 0 };
}

pub const fn u64x2(a: u64, b: u64) -> v128 {
    v128([a, b])
}
pub const fn i64x2(a: i64, b: i64) -> v128 {
    v128([a as u64, b as u64])
}
pub const fn u64x2_splat(a: u64) -> v128 {
    v128([a, a])
}
pub const fn i64x2_splat(a: i64) -> v128 {
    v128([a as u64, a as u64])
}
pub const fn u32x4(a: u32, b: u32, c: u32, d: u32) -> v128 {
    v128([a as u64 | (b as u64) << 32, c as u64 | (d as u64) << 32])
}
#[inline(always)]
pub const fn v128_not(a: v128) -> v128 {
    v128([!a.0[0], !a.0[1]])
}
#[inline(always)]
pub const fn v128_bitselect(a: v128, b: v128, m: v128) -> v128 {
    v128_or(v128_and(a, m), v128_andnot(b, m))
}
#[inline(always)]
pub const fn v128_any_true(a: v128) -> bool {
    a.0[0] | a.0[1] != 0
}
#[inline(always)]
pub const fn u64x2_all_true(a: v128) -> bool {
    a.0[0] != 0 && a.0[1] != 0
}
#[inline(always)]
pub const fn i64x2_all_true(a: v128) -> bool {
    a.0[0] != 0 && a.0[1] != 0
}
#[inline(always)]
pub const fn u64x2_extract_lane<const N: usize>(a: v128) -> u64 {
    a.0[N]
}
#[inline(always)]
pub const fn i64x2_extract_lane<const N: usize>(a: v128) -> i64 {
    a.0[N] as i64
}
#[inline(always)]
pub const fn u64x2_replace_lane<const N: usize>(a: v128, x: u64) -> v128 {
    let mut r = a;
    r.0[N] = x;
    r
}
/// Counts are taken modulo the width of a lane.
#[inline(always)]
pub const fn u64x2_shl(a: v128, n: u32) -> v128 {
    v128([a.0[0].wrapping_shl(n), a.0[1].wrapping_shl(n)])
}
#[inline(always)]
pub const fn i64x2_shl(a: v128, n: u32) -> v128 {
    u64x2_shl(a, n)
}
#[inline(always)]
pub const fn u64x2_shr(a: v128, n: u32) -> v128 {
    v128([a.0[0].wrapping_shr(n), a.0[1].wrapping_shr(n)])
}
#[inline(always)]
pub const fn i64x2_shr(a: v128, n: u32) -> v128 {
    v128([(a.0[0] as i64).wrapping_shr(n) as u64, (a.0[1] as i64).wrapping_shr(n) as u64])
}
const fn popcount(x: u64) -> u64 {
    let mut r = 0;
    let mut i = 0;
    while i < 8 {
        r |= ((x >> (8 * i) & 255).count_ones() as u64) << (8 * i);
        i += 1;
    }
    r
}
#[inline(always)]
pub const fn u8x16_popcnt(a: v128) -> v128 {
    v128([popcount(a.0[0]), popcount(a.0[1])])
}
#[inline(always)]
pub const fn i8x16_popcnt(a: v128) -> v128 {
    u8x16_popcnt(a)
}
#[inline(always)]
pub const fn u64x2_shuffle<const A: usize, const B: usize>(a: v128, b: v128) -> v128 {
    let x = [a.0[0], a.0[1], b.0[0], b.0[1]];
    v128([x[A], x[B]])
}
#[inline(always)]
pub const fn i64x2_shuffle<const A: usize, const B: usize>(a: v128, b: v128) -> v128 {
    u64x2_shuffle::<A, B>(a, b)
}
#[inline(always)]
pub unsafe fn v128_load(p: *const v128) -> v128 {
    v128((p as *const [u64; 2]).read_unaligned())
}
#[inline(always)]
pub unsafe fn v128_store(p: *mut v128, a: v128) {
    (p as *mut [u64; 2]).write_unaligned(a.0)
}
