//! Stand-ins for `std::arch::aarch64`: the vector operations a bitboard may
//! use, lane by lane as Arm's reference states them, so that the library's
//! aarch64 code runs on this machine.
#![allow(dead_code, non_camel_case_types, unused_unsafe, clippy::all)]
#![allow(clippy::missing_safety_doc)]

macro_rules! vector {
    ($($name:ident [$lane:ty; $n:literal])*) => {$(
        #[derive(Clone, Copy, Debug)]
        #[repr(transparent)]
        pub struct $name(pub [$lane; $n]);
    )*};
}
vector! {
    uint8x8_t [u8; 8] uint16x4_t [u16; 4] uint32x2_t [u32; 2] uint64x1_t [u64; 1]
    uint8x16_t [u8; 16] uint16x8_t [u16; 8] uint32x4_t [u32; 4] uint64x2_t [u64; 2]
    int64x1_t [i64; 1] int64x2_t [i64; 2] int32x2_t [i32; 2] int32x4_t [i32; 4]
}

macro_rules! bitwise {
    ($t:ident, $lane:ty, $and:ident $or:ident $xor:ident $bic:ident $orn:ident) => {
        bitwise!(@ $t, $and, |a, b| a & b);
        bitwise!(@ $t, $or, |a, b| a | b);
        bitwise!(@ $t, $xor, |a, b| a ^ b);
        bitwise!(@ $t, $bic, |a, b| a & !b);
        bitwise!(@ $t, $orn, |a, b| a | !b);
    };
    (@ $t:ident, $f:ident, |$a:ident, $b:ident| $e:expr) => {
        #[inline(always)]
        pub unsafe fn $f(a: $t, b: $t) -> $t {
            let mut r = a;
            for i in 0..r.0.len() {
                let ($a, $b) = (a.0[i], b.0[i]);
                r.0[i] = $e;
            }
            r
        }
    };
}
bitwise!(uint8x8_t, u8, vand_u8 vorr_u8 veor_u8 vbic_u8 vorn_u8);
bitwise!(uint16x4_t, u16, vand_u16 vorr_u16 veor_u16 vbic_u16 vorn_u16);
bitwise!(uint32x2_t, u32, vand_u32 vorr_u32 veor_u32 vbic_u32 vorn_u32);
bitwise!(uint64x1_t, u64, vand_u64 vorr_u64 veor_u64 vbic_u64 vorn_u64);
bitwise!(uint8x16_t, u8, vandq_u8 vorrq_u8 veorq_u8 vbicq_u8 vornq_u8);
bitwise!(uint16x8_t, u16, vandq_u16 vorrq_u16 veorq_u16 vbicq_u16 vornq_u16);
bitwise!(uint32x4_t, u32, vandq_u32 vorrq_u32 veorq_u32 vbicq_u32 vornq_u32);
bitwise!(uint64x2_t, u64, vandq_u64 vorrq_u64 veorq_u64 vbicq_u64 vornq_u64);

macro_rules! arithmetic {
    ($t:ident, $lane:ty, $n:literal, $add:ident $sub:ident $ceq:ident $tst:ident $cgt:ident $cge:ident $clt:ident $cle:ident $shl:ident $shr:ident $sra:ident $dup:ident $mov:ident $get:ident $set:ident $ld:ident $st:ident) => {
        bitwise!(@ $t, $add, |a, b| a.wrapping_add(b));
        bitwise!(@ $t, $sub, |a, b| a.wrapping_sub(b));
        bitwise!(@ $t, $ceq, |a, b| if a == b { <$lane>::MAX } else { 0 });
        bitwise!(@ $t, $tst, |a, b| if a & b != 0 { <$lane>::MAX } else { 0 });
        bitwise!(@ $t, $cgt, |a, b| if a > b { <$lane>::MAX } else { 0 });
        bitwise!(@ $t, $cge, |a, b| if a >= b { <$lane>::MAX } else { 0 });
        bitwise!(@ $t, $clt, |a, b| if a < b { <$lane>::MAX } else { 0 });
        bitwise!(@ $t, $cle, |a, b| if a <= b { <$lane>::MAX } else { 0 });
        #[inline(always)]
        pub unsafe fn $shl<const N: i32>(a: $t) -> $t {
            assert!(0 <= N && N < <$lane>::BITS as i32);
            $t(a.0.map(|x| x << N))
        }
        #[inline(always)]
        pub unsafe fn $shr<const N: i32>(a: $t) -> $t {
            assert!(1 <= N && N <= <$lane>::BITS as i32);
            $t(a.0.map(|x| x.checked_shr(N as u32).unwrap_or(0)))
        }
        #[inline(always)]
        pub unsafe fn $sra<const N: i32>(a: $t, b: $t) -> $t {
            $add(a, $shr::<N>(b))
        }
        #[inline(always)]
        pub unsafe fn $dup(x: $lane) -> $t {
            $t([x; $n])
        }
        #[inline(always)]
        pub unsafe fn $mov(x: $lane) -> $t {
            $t([x; $n])
        }
        #[inline(always)]
        pub unsafe fn $get<const I: i32>(a: $t) -> $lane {
            a.0[I as usize]
        }
        #[inline(always)]
        pub unsafe fn $set<const I: i32>(x: $lane, a: $t) -> $t {
            let mut r = a;
            r.0[I as usize] = x;
            r
        }
        #[inline(always)]
        pub unsafe fn $ld(p: *const $lane) -> $t {
            $t((p as *const [$lane; $n]).read_unaligned())
        }
        #[inline(always)]
        pub unsafe fn $st(p: *mut $lane, a: $t) {
            (p as *mut [$lane; $n]).write_unaligned(a.0)
        }
    };
}
arithmetic!(uint8x8_t, u8, 8, vadd_u8 vsub_u8 vceq_u8 vtst_u8 vcgt_u8 vcge_u8 vclt_u8 vcle_u8 vshl_n_u8 vshr_n_u8 vsra_n_u8 vdup_n_u8 vmov_n_u8 vget_lane_u8 vset_lane_u8 vld1_u8 vst1_u8);
arithmetic!(uint16x4_t, u16, 4, vadd_u16 vsub_u16 vceq_u16 vtst_u16 vcgt_u16 vcge_u16 vclt_u16 vcle_u16 vshl_n_u16 vshr_n_u16 vsra_n_u16 vdup_n_u16 vmov_n_u16 vget_lane_u16 vset_lane_u16 vld1_u16 vst1_u16);
arithmetic!(uint32x2_t, u32, 2, vadd_u32 vsub_u32 vceq_u32 vtst_u32 vcgt_u32 vcge_u32 vclt_u32 vcle_u32 vshl_n_u32 vshr_n_u32 vsra_n_u32 vdup_n_u32 vmov_n_u32 vget_lane_u32 vset_lane_u32 vld1_u32 vst1_u32);
arithmetic!(uint64x1_t, u64, 1, vadd_u64 vsub_u64 vceq_u64 vtst_u64 vcgt_u64 vcge_u64 vclt_u64 vcle_u64 vshl_n_u64 vshr_n_u64 vsra_n_u64 vdup_n_u64 vmov_n_u64 vget_lane_u64 vset_lane_u64 vld1_u64 vst1_u64);
arithmetic!(uint8x16_t, u8, 16, vaddq_u8 vsubq_u8 vceqq_u8 vtstq_u8 vcgtq_u8 vcgeq_u8 vcltq_u8 vcleq_u8 vshlq_n_u8 vshrq_n_u8 vsraq_n_u8 vdupq_n_u8 vmovq_n_u8 vgetq_lane_u8 vsetq_lane_u8 vld1q_u8 vst1q_u8);
arithmetic!(uint16x8_t, u16, 8, vaddq_u16 vsubq_u16 vceqq_u16 vtstq_u16 vcgtq_u16 vcgeq_u16 vcltq_u16 vcleq_u16 vshlq_n_u16 vshrq_n_u16 vsraq_n_u16 vdupq_n_u16 vmovq_n_u16 vgetq_lane_u16 vsetq_lane_u16 vld1q_u16 vst1q_u16);
arithmetic!(uint32x4_t, u32, 4, vaddq_u32 vsubq_u32 vceqq_u32 vtstq_u32 vcgtq_u32 vcgeq_u32 vcltq_u32 vcleq_u32 vshlq_n_u32 vshrq_n_u32 vsraq_n_u32 vdupq_n_u32 vmovq_n_u32 vgetq_lane_u32 vsetq_lane_u32 vld1q_u32 vst1q_u32);
arithmetic!(uint64x2_t, u64, 2, vaddq_u64 vsubq_u64 vceqq_u64 vtstq_u64 vcgtq_u64 vcgeq_u64 vcltq_u64 vcleq_u64 vshlq_n_u64 vshrq_n_u64 vsraq_n_u64 vdupq_n_u64 vmovq_n_u64 vgetq_lane_u64 vsetq_lane_u64 vld1q_u64 vst1q_u64);

macro_rules! unary {
    ($($f:ident($t:ident) $e:expr;)*) => {$(
        #[inline(always)]
        pub unsafe fn $f(a: $t) -> $t {
            $t(a.0.map($e))
        }
    )*};
}
unary! {
    vmvnq_u8(uint8x16_t) |x| !x;
    vmvnq_u16(uint16x8_t) |x| !x;
    vmvnq_u32(uint32x4_t) |x| !x;
    vmvn_u8(uint8x8_t) |x| !x;
    vmvn_u32(uint32x2_t) |x| !x;
    vceqzq_u64(uint64x2_t) |x| if x == 0 { u64::MAX } else { 0 };
    vceqzq_u32(uint32x4_t) |x| if x == 0 { u32::MAX } else { 0 };
    vceqzq_u8(uint8x16_t) |x| if x == 0 { u8::MAX } else { 0 };
    vceqz_u64(uint64x1_t) |x| if x == 0 { u64::MAX } else { 0 };
    vcntq_u8(uint8x16_t) |x| x.count_ones() as u8;
    vcnt_u8(uint8x8_t) |x| x.count_ones() as u8;
    vrbitq_u8(uint8x16_t) |x| x.reverse_bits();
    vrbit_u8(uint8x8_t) |x| x.reverse_bits();
    vclzq_u32(uint32x4_t) |x| x.leading_zeros();
    vclzq_u8(uint8x16_t) |x| x.leading_zeros() as u8;
}

/// The lanes are stored little-endian, as on this machine.
macro_rules! reinterpret {
    ($($f:ident $a:ident $b:ident)*) => {$(
        #[inline(always)]
        pub unsafe fn $f(a: $a) -> $b {
            ::std::mem::transmute(a)
        }
    )*};
}
reinterpret! {
    vreinterpret_u64_u32 uint32x2_t uint64x1_t
    vreinterpret_u64_u16 uint16x4_t uint64x1_t
    vreinterpret_u64_u8 uint8x8_t uint64x1_t
    vreinterpret_u32_u64 uint64x1_t uint32x2_t
    vreinterpret_u16_u64 uint64x1_t uint16x4_t
    vreinterpret_u8_u64 uint64x1_t uint8x8_t
    vreinterpretq_u64_u32 uint32x4_t uint64x2_t
    vreinterpretq_u64_u16 uint16x8_t uint64x2_t
    vreinterpretq_u64_u8 uint8x16_t uint64x2_t
    vreinterpretq_u64_s64 int64x2_t uint64x2_t
    vreinterpretq_s64_u64 uint64x2_t int64x2_t
    vreinterpretq_u32_u64 uint64x2_t uint32x4_t
    vreinterpretq_u16_u64 uint64x2_t uint16x8_t
    vreinterpretq_u8_u64 uint64x2_t uint8x16_t
    vreinterpretq_u8_u32 uint32x4_t uint8x16_t
    vreinterpretq_u32_u8 uint8x16_t uint32x4_t
}

macro_rules! halves {
    ($q:ident $d:ident $n:literal $low:ident $high:ident $combine:ident) => {
        #[inline(always)]
        pub unsafe fn $low(a: $q) -> $d {
            $d(::std::array::from_fn(|i| a.0[i]))
        }
        #[inline(always)]
        pub unsafe fn $high(a: $q) -> $d {
            $d(::std::array::from_fn(|i| a.0[$n + i]))
        }
        #[inline(always)]
        pub unsafe fn $combine(low: $d, high: $d) -> $q {
            $q(::std::array::from_fn(|i| if i < $n { low.0[i] } else { high.0[i - $n] }))
        }
    };
}
halves!(uint8x16_t uint8x8_t 8 vget_low_u8 vget_high_u8 vcombine_u8);
halves!(uint16x8_t uint16x4_t 4 vget_low_u16 vget_high_u16 vcombine_u16);
halves!(uint32x4_t uint32x2_t 2 vget_low_u32 vget_high_u32 vcombine_u32);
halves!(uint64x2_t uint64x1_t 1 vget_low_u64 vget_high_u64 vcombine_u64);

macro_rules! across {
    ($($f:ident($t:ident) -> $r:ty, |$a:ident| $e:expr;)*) => {$(
        #[inline(always)]
        pub unsafe fn $f(v: $t) -> $r {
            let $a = v.0;
            $e
        }
    )*};
}
across! {
    vaddvq_u8(uint8x16_t) -> u8, |a| a.iter().fold(0u8, |s, &x| s.wrapping_add(x));
    vaddv_u8(uint8x8_t) -> u8, |a| a.iter().fold(0u8, |s, &x| s.wrapping_add(x));
    vaddlvq_u8(uint8x16_t) -> u16, |a| a.iter().map(|&x| x as u16).sum();
    vaddvq_u32(uint32x4_t) -> u32, |a| a.iter().fold(0u32, |s, &x| s.wrapping_add(x));
    vaddvq_u64(uint64x2_t) -> u64, |a| a[0].wrapping_add(a[1]);
    vaddlvq_u32(uint32x4_t) -> u64, |a| a.iter().map(|&x| x as u64).sum();
    vmaxvq_u8(uint8x16_t) -> u8, |a| *a.iter().max().unwrap();
    vmaxvq_u16(uint16x8_t) -> u16, |a| *a.iter().max().unwrap();
    vmaxvq_u32(uint32x4_t) -> u32, |a| *a.iter().max().unwrap();
    vmaxv_u32(uint32x2_t) -> u32, |a| *a.iter().max().unwrap();
    vminvq_u8(uint8x16_t) -> u8, |a| *a.iter().min().unwrap();
    vminvq_u32(uint32x4_t) -> u32, |a| *a.iter().min().unwrap();
    vqmovn_u64(uint64x2_t) -> uint32x2_t, |a| uint32x2_t(a.map(|x| x.min(u32::MAX as u64) as u32));
    vmovn_u64(uint64x2_t) -> uint32x2_t, |a| uint32x2_t(a.map(|x| x as u32));
    vqmovn_u32(uint32x4_t) -> uint16x4_t, |a| uint16x4_t(a.map(|x| x.min(u16::MAX as u32) as u16));
    vqmovn_u16(uint16x8_t) -> uint8x8_t, |a| uint8x8_t(a.map(|x| x.min(u8::MAX as u16) as u8));
    vpaddlq_u8(uint8x16_t) -> uint16x8_t, |a| uint16x8_t(::std::array::from_fn(|i| a[2 * i] as u16 + a[2 * i + 1] as u16));
    vpaddlq_u16(uint16x8_t) -> uint32x4_t, |a| uint32x4_t(::std::array::from_fn(|i| a[2 * i] as u32 + a[2 * i + 1] as u32));
    vpaddlq_u32(uint32x4_t) -> uint64x2_t, |a| uint64x2_t(::std::array::from_fn(|i| a[2 * i] as u64 + a[2 * i + 1] as u64));
    vrev64q_u8(uint8x16_t) -> uint8x16_t, |a| uint8x16_t(::std::array::from_fn(|i| a[(i & 8) + 7 - (i & 7)]));
}
bitwise!(@ uint64x2_t, vqsubq_u64, |a, b| a.saturating_sub(b));
bitwise!(@ uint64x2_t, vqaddq_u64, |a, b| a.saturating_add(b));

#[inline(always)]
pub unsafe fn vextq_u64<const N: i32>(a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    let x = [a.0[0], a.0[1], b.0[0], b.0[1]];
    uint64x2_t([x[N as usize], x[N as usize + 1]])
}
#[inline(always)]
pub unsafe fn vcreate_u64(x: u64) -> uint64x1_t {
    uint64x1_t([x])
}
#[inline(always)]
pub unsafe fn vcreate_u8(x: u64) -> uint8x8_t {
    uint8x8_t(x.to_le_bytes())
}
#[inline(always)]
pub unsafe fn vbslq_u64(m: uint64x2_t, a: uint64x2_t, b: uint64x2_t) -> uint64x2_t {
    vorrq_u64(vandq_u64(a, m), vbicq_u64(b, m))
}
/// Shift left by a signed count per lane, right where it is negative.
#[inline(always)]
pub unsafe fn vshlq_u64(a: uint64x2_t, n: int64x2_t) -> uint64x2_t {
    uint64x2_t(::std::array::from_fn(|i| {
        let s = n.0[i] as i8 as i32;
        if s >= 0 {
            a.0[i].checked_shl(s as u32).unwrap_or(0)
        } else {
            a.0[i].checked_shr(-s as u32).unwrap_or(0)
        }
    }))
}
#[inline(always)]
pub unsafe fn vdupq_n_s64(x: i64) -> int64x2_t {
    int64x2_t([x; 2])
}
#[inline(always)]
pub unsafe fn vld1q_s64(p: *const i64) -> int64x2_t {
    int64x2_t((p as *const [i64; 2]).read_unaligned())
}
