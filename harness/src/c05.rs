//! C05: fixed-point arithmetic.
use crate::nd::*;
use crate::ensure;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;

/// Harness-side formats, so that the generic operations are checked for more
/// shifts than the program happens to use.
macro_rules! fmt {
    ($($n:ident $raw:ty;)*) => { $(
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct $n<const F: u8>(pub $raw);
        impl<const F: u8> FixedPoint for $n<F> {
            type Raw = $raw;
            fn raw(&self) -> $raw { self.0 }
            fn new_unchecked(raw: $raw) -> Self { $n(raw) }
            const FRACTIONAL_BITS: u8 = F;
        }
    )* }
}
fmt! { I32 i32; U32 u32; I64 i64; U64 u64; }

/// x / 2^s rounded to nearest, halves away from zero.
fn rnd_shift(x: i128, s: u32) -> i128 {
    let m = (x.abs() + (1i128 << (s - 1))) >> s;
    if x < 0 { -m } else { m }
}

/// Contract of the down-scaling functions on magnitudes: exact rounding to
/// nearest (halves up, i.e. away from zero); within half a divisor of the
/// type's largest magnitude `max` at most one unit smaller.
fn scaled_ok(neg: bool, mag: u64, s: u32, rneg: bool, rmag: u64, max: u64) -> bool {
    let half = 1u64 << (s - 1);
    (rmag == 0 || neg == rneg) && match mag.checked_add(half) {
        Some(t) if t <= max => rmag == t >> s,
        _ => {
            // round(mag / 2^s) without overflow
            let e = (mag >> s) + ((mag >> (s - 1)) & 1);
            rmag == e || rmag + 1 == e
        }
    }
}

macro_rules! scaled {
    ($f:path, $t:ty, $lo:expr, $hi:expr) => {{
        let x: $t = any();
        let s: u8 = any_in($lo, $hi);
        reach!();
        let r = $f(x, s);
        assert!(scaled_ok(is_neg(x as i128), mag(x as i128), s as u32,
                          is_neg(r as i128), mag(r as i128), <$t>::MAX as u64),
                "scaled_down: rounded to nearest, halves away from zero");
    }}
}

fn is_neg(x: i128) -> bool { x < 0 }
fn mag(x: i128) -> u64 { x.unsigned_abs() as u64 }

macro_rules! fits {
    ($t:ty, $v:expr) => { $v >= <$t>::MIN as i128 && $v <= <$t>::MAX as i128 }
}

macro_rules! conv {
    // value preserving (finer or equal) or rounding (coarser) conversion
    ($A:ty, $m:ident, $R:ty) => {{
        let x: <$A as FixedPoint>::Raw = any();
        let a = <$A>::new_unchecked(x);
        let fa = <$A as FixedPoint>::FRACTIONAL_BITS as i32;
        let fr = <$R as FixedPoint>::FRACTIONAL_BITS as i32;
        assume(conv_fits!($A, $R, x));
        let r: $R = a.$m();
        if fr >= fa {
            assert!(r.raw() as i128 == (x as i128) << (fr - fa),
                    "conversion to a finer format is exact");
        } else {
            assert!(scaled_ok(is_neg(x as i128), mag(x as i128),
                    (fa - fr) as u32,
                    is_neg(r.raw() as i128), mag(r.raw() as i128),
                    <<$A as FixedPoint>::Raw>::MAX as u64),
                    "conversion to a coarser format rounds to nearest");
        }
    }}
}

macro_rules! conv_fits {
    ($A:ty, $R:ty, $x:expr) => {{
        let fa = <$A as FixedPoint>::FRACTIONAL_BITS as i32;
        let fr = <$R as FixedPoint>::FRACTIONAL_BITS as i32;
        if fr >= fa {
            fits!(<$R as FixedPoint>::Raw, ($x as i128) << (fr - fa))
        } else {
            fits!(<$R as FixedPoint>::Raw, rnd_shift($x as i128,
                  (fa - fr) as u32))
        }
    }}
}

macro_rules! conv_rejects {
    ($A:ty, $m:ident, $R:ty) => {{
        let x: <$A as FixedPoint>::Raw = any();
        assume(!conv_fits!($A, $R, x));
        // inside half a divisor of the ends a saturated rounding may fit
        assume((x as i128).abs() < (1i128 << 62));
        rejects(|| { let r: $R = <$A>::new_unchecked(x).$m(); r });
    }}
}

/// r = x / 2^s rounded to nearest with halves away from zero, as a relation
/// without division (requires |x| + half to fit).
fn rel_i64(x: i64, s: u32, r: i64) -> bool {
    let half = 1i64 << (s - 1);
    let d = (r << s).wrapping_sub(x);
    // r << s loses nothing
    let lossless = (r << s) >> s == r;
    lossless && if x >= 0 { -half < d && d <= half && r >= 0 }
        else { -half <= d && d < half && r <= 0 }
}
fn rel_u64(x: u64, s: u32, r: u64) -> bool { r == (x + (1u64 << (s - 1))) >> s }

macro_rules! imul {
    ($m:path, $A:ty, $B:ty, $R:ty) => {{
        let x: i32 = any();
        let y: i32 = any();
        let p = (x as i64).wrapping_mul(y as i64);
        let s = <$A as FixedPoint>::FRACTIONAL_BITS as i32
            + <$B as FixedPoint>::FRACTIONAL_BITS as i32
            - <$R as FixedPoint>::FRACTIONAL_BITS as i32;
        assume(round_fits(p, s, <<$R as FixedPoint>::Raw>::MAX as i64));
        reach!();
        let r: $R = $m(&<$A>::new_unchecked(x), &<$B>::new_unchecked(y));
        let r = r.raw() as i64;
        if s > 0 {
            assert!(rel_i64(p, s as u32, r), "mul: exact product, rounded");
        } else {
            assert!(r == p << -s, "mul: exact product");
        }
    }};
}

/// round(p / 2^s) (or p * 2^-s) lies within [-max - 1, max], given by
/// comparisons of p with constants.
fn round_fits(p: i64, s: i32, max: i64) -> bool {
    let (m, hi, lo);
    m = max as i128;
    if s > 0 {
        let half = 1i128 << (s - 1);
        hi = ((m + 1) << s) - half - 1;          // p + half < (m + 1) << s
        lo = -((m + 2) << s) + half + 1;         // -p + half < (m + 2) << s
    } else {
        hi = m >> -s;
        lo = -((m + 1) >> -s);
    }
    let clip = |v: i128| v.max(i64::MIN as i128).min(i64::MAX as i128) as i64;
    clip(lo) <= p && p <= clip(hi)
}

macro_rules! imul_rejects {
    ($m:path, $A:ty, $B:ty, $R:ty) => {{
        let x: i32 = any();
        let y: i32 = any();
        let p = (x as i64).wrapping_mul(y as i64);
        let s = <$A as FixedPoint>::FRACTIONAL_BITS as i32
            + <$B as FixedPoint>::FRACTIONAL_BITS as i32
            - <$R as FixedPoint>::FRACTIONAL_BITS as i32;
        assume(!round_fits(p, s, <<$R as FixedPoint>::Raw>::MAX as i64));
        rejects(|| { let r: $R = $m(&<$A>::new_unchecked(x),
                                    &<$B>::new_unchecked(y)); r });
    }};
}

macro_rules! umul {
    ($m:path, $A:ty, $B:ty, $R:ty) => {{
        let x: u32 = any();
        let y: u32 = any();
        let p = (x as u64).wrapping_mul(y as u64);
        let s = <$A as FixedPoint>::FRACTIONAL_BITS as i32
            + <$B as FixedPoint>::FRACTIONAL_BITS as i32
            - <$R as FixedPoint>::FRACTIONAL_BITS as i32;
        let max = <<$R as FixedPoint>::Raw>::MAX as u64;
        // the widest products: see scaled_ok
        let e = if s > 0 {
            assume(p <= u64::MAX - (1u64 << (s - 1)));
            (p + (1u64 << (s - 1))) >> s
        } else {
            assume(p <= max >> -s);
            p << -s
        };
        assume(e <= max);
        reach!();
        let r: $R = $m(&<$A>::new_unchecked(x), &<$B>::new_unchecked(y));
        assert!(r.raw() as u64 == e, "mul: exact product, rounded to nearest");
    }};
}

macro_rules! umul_rejects {
    ($m:path, $A:ty, $B:ty, $R:ty) => {{
        let x: u32 = any();
        let y: u32 = any();
        let p = (x as u64).wrapping_mul(y as u64);
        let s = <$A as FixedPoint>::FRACTIONAL_BITS as i32
            + <$B as FixedPoint>::FRACTIONAL_BITS as i32
            - <$R as FixedPoint>::FRACTIONAL_BITS as i32;
        let max = <<$R as FixedPoint>::Raw>::MAX as u64;
        if s > 0 {
            assume(p <= u64::MAX - (1u64 << (s - 1)));
            assume((p + (1u64 << (s - 1))) >> s > max);
        } else {
            assume(p > max >> -s);
        }
        rejects(|| { let r: $R = $m(&<$A>::new_unchecked(x),
                                    &<$B>::new_unchecked(y)); r });
    }};
}

macro_rules! arith {
    ($T:ty) => {{
        let x: <$T as FixedPoint>::Raw = any();
        let y: <$T as FixedPoint>::Raw = any();
        let (a, b) = (<$T>::new_unchecked(x), <$T>::new_unchecked(y));
        let (s, d) = (x as i128 + y as i128, x as i128 - y as i128);
        if fits!(<$T as FixedPoint>::Raw, s) {
            reach!();
            assert!(a.add(&b).raw() as i128 == s, "add: exact");
        }
        if fits!(<$T as FixedPoint>::Raw, d) {
            assert!(a.sub(&b).raw() as i128 == d, "sub: exact");
        }
    }};
}

macro_rules! arith_rejects {
    ($T:ty) => {{
        let x: <$T as FixedPoint>::Raw = any();
        let y: <$T as FixedPoint>::Raw = any();
        let (a, b) = (<$T>::new_unchecked(x), <$T>::new_unchecked(y));
        let (s, d) = (x as i128 + y as i128, x as i128 - y as i128);
        let which: bool = any();
        if which {
            assume(!fits!(<$T as FixedPoint>::Raw, s));
            rejects(|| a.add(&b));
        } else {
            assume(!fits!(<$T as FixedPoint>::Raw, d));
            rejects(|| a.sub(&b));
        }
    }};
}

/// Callee contracts of the 64-bit down-scalings, as stubs for their callers:
/// the precondition is an obligation of the caller, the result is arbitrary
/// within the postcondition (proved by c05_scaled_i64 / c05_scaled_u64).
pub fn scaled_i64_contract(raw: i64, shift: u8) -> i64 {
    assert!(shift >= 1 && shift <= 62, "precondition of scaled_down");
    let r: i64 = any();
    let half = 1i64 << (shift - 1);
    assume(raw > i64::MAX - half || raw < -(i64::MAX - half)
        || rel_i64(raw, shift as u32, r));
    r
}
pub fn scaled_u64_contract(raw: u64, shift: u8) -> u64 {
    assert!(shift >= 1 && shift <= 63, "precondition of scaled_down");
    let r: u64 = any();
    assume(raw > u64::MAX - (1u64 << (shift - 1)) || rel_u64(raw, shift as u32, r));
    r
}

harnesses! {
    //@@ of: fixed_point::{fix_i16::scaled_down,fix_u16::scaled_down,fix_i32::scaled_down,fix_u32::scaled_down,fix_i64::scaled_down,fix_u64::scaled_down}
    fn c05_scaled_16() {
        scaled!(fix_i16::scaled_down, i16, 1, 14);
        scaled!(fix_u16::scaled_down, u16, 1, 15);
    }
    fn c05_scaled_i32() { scaled!(fix_i32::scaled_down, i32, 1, 30); }
    fn c05_scaled_u32() { scaled!(fix_u32::scaled_down, u32, 1, 31); }
    #[kani::solver(kissat)]
    fn c05_scaled_i64() { scaled!(fix_i64::scaled_down, i64, 1, 62); }
    #[kani::solver(kissat)]
    fn c05_scaled_i64_rel() {
        let x: i64 = any();
        let s: u8 = any_in(1, 62);
        let half = 1i64 << (s - 1);
        assume(x <= i64::MAX - half && x >= -(i64::MAX - half));
        reach!();
        assert!(rel_i64(x, s as u32, fix_i64::scaled_down(x, s)),
                "scaled_down: relational contract");
    }
    fn c05_scaled_u64() { scaled!(fix_u64::scaled_down, u64, 1, 63); }

    //@@ of: fixed_point::{FixI32::to_fix_i32,FixI32::to_fix_i64,FixI64::to_fix_i32,FixI64::to_fix_i64,FixU32::to_fix_u32,FixU32::to_fix_u64,FixU64::to_fix_u32,FixU64::to_fix_u64,FixI32::add,FixI32::sub,FixI64::add,FixI64::sub,FixU32::add,FixU32::sub,FixU64::add,FixU64::sub}
    fn c05_conv_i32() {
        conv!(NoFractI32, to_fix_i32, I32<25>);
        conv!(StretchedProbD, to_fix_i64, StretchedProbQ);
        conv!(FractOnlyI32, to_fix_i32, I32<25>);
        conv!(I32<31>, to_fix_i32, I32<1>);
        conv!(I32<7>, to_fix_i64, I64<39>);
        conv!(I32<30>, to_fix_i64, I64<3>);
        conv!(Log2D, to_fix_i64, Log2Q);
        conv!(I32<10>, to_fix_i32, I32<11>);
        reach!();
    }
    fn c05_conv_i64() {
        conv!(I64<40>, to_fix_i32, I32<21>);
        conv!(I64<63>, to_fix_i32, I32<1>);
        conv!(I64<11>, to_fix_i32, I32<20>);
        conv!(I64<11>, to_fix_i64, I64<40>);
        conv!(I64<40>, to_fix_i64, I64<11>);
        conv!(I64<20>, to_fix_i32, I32<20>);
        reach!();
    }
    fn c05_conv_u32() {
        conv!(U32<31>, to_fix_u32, U32<23>);
        conv!(U32<0>, to_fix_u32, U32<31>);
        conv!(U32<31>, to_fix_u64, U64<63>);
        conv!(U32<31>, to_fix_u64, U64<22>);
        conv!(U32<12>, to_fix_u32, U32<12>);
        reach!();
    }
    fn c05_conv_u64() {
        conv!(U64<63>, to_fix_u32, U32<31>);
        conv!(U64<31>, to_fix_u32, U32<31>);
        conv!(U64<5>, to_fix_u32, U32<9>);
        conv!(U64<62>, to_fix_u64, U64<31>);
        conv!(U64<22>, to_fix_u64, U64<31>);
        reach!();
    }
    #[kani::should_panic]
    fn c05_conv_rejects_i() {
        let k: u8 = any_in(0u8, 3);
        match k {
            0 => conv_rejects!(I32<10>, to_fix_i32, I32<11>),
            1 => conv_rejects!(I64<40>, to_fix_i32, I32<21>),
            2 => conv_rejects!(I64<11>, to_fix_i64, I64<40>),
            _ => conv_rejects!(I64<11>, to_fix_i32, I32<20>),
        }
    }
    #[kani::should_panic]
    fn c05_conv_rejects_u() {
        let k: u8 = any_in(0u8, 3);
        match k {
            0 => conv_rejects!(U32<0>, to_fix_u32, U32<31>),
            1 => conv_rejects!(U64<63>, to_fix_u32, U32<40>),
            2 => conv_rejects!(U64<22>, to_fix_u64, U64<31>),
            _ => conv_rejects!(U64<5>, to_fix_u32, U32<9>),
        }
    }

    fn c05_arith_i() { arith!(I32<21>); arith!(I64<11>); }
    fn c05_arith_u() { arith!(U32<23>); arith!(U64<31>); }
    #[kani::should_panic]
    fn c05_arith_rejects() {
        let k: u8 = any_in(0u8, 3);
        match k {
            0 => arith_rejects!(I32<21>),
            1 => arith_rejects!(I64<11>),
            2 => arith_rejects!(U32<23>),
            _ => arith_rejects!(U64<31>),
        }
    }

    //@@ of: fixed_point::{fix_i32::mul,fix_i32::mul_wide,fix_u32::mul,fix_u32::mul_wide}
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_i32_0() { imul!(fix_i32::mul, I32<21>, I32<21>, I32<21>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_i32_1() { imul!(fix_i32::mul, I32<21>, I32<31>, I32<21>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_i32_2() { imul!(fix_i32::mul, I32<25>, I32<31>, I32<21>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_i32_3() { imul!(fix_i32::mul, I32<10>, I32<10>, I32<20>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_i32_4() { imul!(fix_i32::mul, I32<3>, I32<4>, I32<16>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_wide_i32_0() { imul!(fix_i32::mul_wide, I32<21>, I32<21>, I64<40>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_wide_i32_1() { imul!(fix_i32::mul_wide, I32<20>, I32<20>, I64<40>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_wide_i32_2() { imul!(fix_i32::mul_wide, I32<11>, I32<9>, I64<35>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_u32_0() { umul!(fix_u32::mul, U32<31>, U32<31>, U32<31>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_u32_1() { umul!(fix_u32::mul, U32<31>, U32<0>, U32<31>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_u32_2() { umul!(fix_u32::mul, U32<16>, U32<15>, U32<22>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_u32_3() { umul!(fix_u32::mul, U32<3>, U32<4>, U32<16>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_wide_u32_0() { umul!(fix_u32::mul_wide, U32<31>, U32<31>, U64<40>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_wide_u32_1() { umul!(fix_u32::mul_wide, U32<20>, U32<20>, U64<40>); }
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_wide_u32_2() { umul!(fix_u32::mul_wide, U32<11>, U32<9>, U64<35>); }
    #[kani::should_panic]
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_rejects_0() { imul_rejects!(fix_i32::mul, I32<21>, I32<21>, I32<21>); }
    #[kani::should_panic]
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_rejects_1() { imul_rejects!(fix_i32::mul, I32<3>, I32<4>, I32<16>); }
    #[kani::should_panic]
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_rejects_2() { umul_rejects!(fix_u32::mul, U32<16>, U32<15>, U32<22>); }
    #[kani::should_panic]
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_rejects_3() { umul_rejects!(fix_u32::mul, U32<3>, U32<4>, U32<16>); }
    #[kani::should_panic]
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_wide_rejects_0() { imul_rejects!(fix_i32::mul_wide, I32<11>, I32<9>, I64<35>); }
    #[kani::should_panic]
    #[kani::solver(kissat)]
    #[kani::stub(demixer::fixed_point::fix_i64::scaled_down, scaled_i64_contract)]
    #[kani::stub(demixer::fixed_point::fix_u64::scaled_down, scaled_u64_contract)]
    fn c05_mul_wide_rejects_1() { umul_rejects!(fix_u32::mul_wide, U32<11>, U32<9>, U64<35>); }
    //@@ of: fixed_point::{FixI32::neg,FixI64::neg,FixI32::trunc,FixI64::trunc}
    fn c05_neg() {
        let x: i32 = any();
        let y: i64 = any();
        assume(x != i32::MIN && y != i64::MIN);
        reach!();
        assert!(I32::<21>(x).neg().raw() as i64 == -(x as i64), "neg: exact");
        assert!(I64::<21>(y).neg().raw() as i128 == -(y as i128), "neg: exact");
        assert!(I32::<21>(x).trunc() as i64 == (x as i64).div_euclid(1 << 21),
                "trunc: floor");
        assert!(I64::<40>(y).trunc() as i128 == (y as i128) >> 40, "trunc: floor");
    }
    #[kani::should_panic]
    fn c05_neg_rejects() {
        let k: bool = any();
        if k { rejects(|| I32::<21>(i32::MIN).neg()); }
        else { rejects(|| I64::<21>(i64::MIN).neg()); }
    }
}

/// Values near the edges of every magnitude, or anything.
#[cfg(not(kani))]
fn pick(r: &mut eval::Rng) -> u64 {
    let k = r.below(64);
    let v = match r.below(4) {
        0 => (1u64 << k).wrapping_add(r.below(5)).wrapping_sub(2),
        1 => (3u64 << k).wrapping_add(r.below(5)).wrapping_sub(2),
        2 => u64::MAX >> k,
        _ => r.next() >> k,
    };
    if r.below(2) == 0 { v } else { v.wrapping_neg() }
}
/// x / d rounded to nearest, halves away from zero; with the allowance of the
/// property for saturating intermediates.
#[cfg(not(kani))]
fn near(x: i128, d: i128, max: i128, r: i128) -> bool {
    let e = (2 * x.abs() + d) / (2 * d);
    (r == 0 || (r < 0) == (x < 0)) &&
        (r.abs() == e || x.abs() + d / 2 > max && r.abs() + 1 == e)
}
/// x moved by s fractional bits; None: overflow of the target type.
#[cfg(not(kani))]
fn moved(x: i128, s: i32, max: i128, r: i128) -> bool {
    if s > 0 { near(x, 1i128 << s, max, r) }
    else { x == 0 && r == 0 || r >> -s == x && r & ((1i128 << -s) - 1) == 0 }
}
/// Some admissible result fits (lo..=hi).
#[cfg(not(kani))]
fn may_fit(x: i128, s: i32, max: i128, lo: i128, hi: i128) -> (bool, bool) {
    if s > 0 {
        let e = (2 * x.abs() + (1i128 << s)) / (2i128 << s);
        let sg = if x < 0 { -1 } else { 1 };
        let slack = x.abs() + (1i128 << (s - 1)) > max;
        let fit = |e: i128| lo <= sg * e && sg * e <= hi;
        (fit(e) && (!slack || e == 0 || fit(e - 1)), fit(e) || slack && e > 0 && fit(e - 1))
    } else {
        let v = x.checked_mul(1i128 << -s);
        let f = v.map_or(false, |v| lo <= v && v <= hi);
        (f, f)
    }
}
/// The result, or None if the call stops.
#[cfg(not(kani))]
fn outcome<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
#[cfg(not(kani))]
fn verdict(what: &str, x: i128, s: i32, max: i128, lo: i128, hi: i128, r: Option<i128>) -> Result<(), String> {
    let (must, may) = may_fit(x, s, max, lo, hi);
    match r {
        None => ensure!(!must, "{}: {} by {} bits fits but the call stops", what, x, s),
        Some(r) => ensure!(may && moved(x, s, max, r), "{}: {} by {} bits is {}", what, x, s, r),
    }
    Ok(())
}

#[cfg(not(kani))]
macro_rules! ev_conv {
    ($rng:expr, $A:ident $a:ty, $m:ident, $R:ident $r:ty, $w:ty; $($fa:literal $fr:literal),*) => {{ $({
        let x = pick($rng) as $a;
        let v = outcome(|| { let r: $R<$fr> = <$A<$fa>>::new_unchecked(x).$m(); r.raw() as i128 });
        verdict(concat!(stringify!($A), "::", stringify!($m)), x as i128, $fa - $fr, <$w>::MAX as i128,
                <$r>::MIN as i128, <$r>::MAX as i128, v)?;
    })* }}
}
#[cfg(not(kani))]
macro_rules! ev_mul {
    ($rng:expr, $f:path, $A:ident $a:ty, $R:ident $r:ty, $w:ty; $($fa:literal $fb:literal $fr:literal),*) => {{ $({
        let (x, y) = (pick($rng) as $a, pick($rng) as $a);
        let v = outcome(|| { let r: $R<$fr> = $f(&<$A<$fa>>::new_unchecked(x), &<$A<$fb>>::new_unchecked(y)); r.raw() as i128 });
        verdict(stringify!($f), x as i128 * y as i128, $fa + $fb - $fr, <$w>::MAX as i128,
                <$r>::MIN as i128, <$r>::MAX as i128, v)?;
    })* }}
}
#[cfg(not(kani))]
macro_rules! ev_int {
    ($rng:expr, $m:ident, $t:ty, $T:ty, $bits:literal) => {{
        let (x, y) = (pick($rng) as $t, pick($rng) as $t);
        let (a, b) = (<$T>::new_unchecked(x), <$T>::new_unchecked(y));
        let s = ($rng.below($bits - 1) + 1) as u8;
        let (lo, hi) = (<$t>::MIN as i128, <$t>::MAX as i128);
        let r = $m::scaled_down(x, s) as i128;
        ensure!(near(x as i128, 1i128 << s, hi, r), "{}::scaled_down({}, {}) = {}", stringify!($m), x, s, r);
        if y > 0 {
            let r = $m::div(x, y) as i128;
            ensure!(near(x as i128, y as i128, hi, r), "{}::div({}, {}) = {}", stringify!($m), x, y, r);
            ensure!(a.div(y).raw() as i128 == r, "div({}, {})", x, y);
        } else {
            ensure!(outcome(|| $m::div(x, y)).is_none(), "{}::div({}, {}) is accepted", stringify!($m), x, y);
        }
        for (name, e, v) in [("add", x as i128 + y as i128, outcome(|| a.add(&b).raw() as i128)),
                             ("sub", x as i128 - y as i128, outcome(|| a.sub(&b).raw() as i128))] {
            ensure!(v == if lo <= e && e <= hi { Some(e) } else { None }, "{}({}, {}) = {:?}", name, x, y, v);
        }
    }}
}

evals! {
    //@ of: fixed_point::{fix_i32::div,fix_u32::div,fix_i64::div,fix_u64::div,FixI32::div,FixU32::div,FixI64::div,FixU64::div}
    //@ bound: sampled operands, steered to the edges of every magnitude
    //@ rule: exact result rounded to nearest or a stop, and no stop when the result fits; conversions and products over a grid of format pairs
    fn c05_sampled() {
        eval::par(if eval::thorough() { 3_000_000 } else { 120_000 }, |case| {
            let r = &mut eval::Rng(eval::seed().wrapping_add(case.wrapping_mul(0x9E37_79B9)));
            ev_int!(r, fix_i32, i32, I32<21>, 32);
            ev_int!(r, fix_u32, u32, U32<21>, 32);
            ev_int!(r, fix_i64, i64, I64<21>, 64);
            ev_int!(r, fix_u64, u64, U64<21>, 64);
            let (x, y) = (pick(r) as i16, pick(r) as u16);
            let s = (r.below(14) + 1) as u8;
            ensure!(near(x as i128, 1 << s, 0x7fff, fix_i16::scaled_down(x, s) as i128), "fix_i16::scaled_down({}, {})", x, s);
            ensure!(near(y as i128, 1 << s, 0xffff, fix_u16::scaled_down(y, s) as i128), "fix_u16::scaled_down({}, {})", y, s);
            match case % 8 {
                0 => ev_conv!(r, I32 i32, to_fix_i32, I32 i32, i32; 0 0, 0 31, 31 0, 31 30, 12 13, 13 12, 21 3),
                1 => ev_conv!(r, I32 i32, to_fix_i64, I64 i64, i64; 0 0, 0 63, 31 0, 31 30, 12 40, 13 12, 21 63),
                2 => ev_conv!(r, I64 i64, to_fix_i32, I32 i32, i64; 0 0, 0 31, 63 0, 62 31, 12 13, 40 21, 33 31),
                3 => ev_conv!(r, I64 i64, to_fix_i64, I64 i64, i64; 0 0, 0 63, 63 0, 62 31, 12 13, 40 21, 33 63),
                4 => ev_conv!(r, U32 u32, to_fix_u32, U32 u32, u32; 0 0, 0 31, 31 0, 31 30, 12 13, 13 12, 21 3),
                5 => ev_conv!(r, U32 u32, to_fix_u64, U64 u64, u64; 0 0, 0 63, 31 0, 31 30, 12 40, 13 12, 21 63),
                6 => ev_conv!(r, U64 u64, to_fix_u32, U32 u32, u64; 0 0, 0 31, 63 0, 62 31, 12 13, 40 21, 33 31),
                _ => ev_conv!(r, U64 u64, to_fix_u64, U64 u64, u64; 0 0, 0 63, 63 0, 62 31, 12 13, 40 21, 33 63),
            }
            match case % 4 {
                0 => ev_mul!(r, fix_i32::mul, I32 i32, I32 i32, i64; 0 0 0, 31 31 31, 31 31 0, 0 0 31, 21 21 21, 10 10 20, 31 21 21, 3 4 16),
                1 => ev_mul!(r, fix_i32::mul_wide, I32 i32, I64 i64, i64; 0 0 0, 31 31 63, 31 31 0, 0 0 63, 21 21 40, 20 20 40, 11 9 35),
                2 => ev_mul!(r, fix_u32::mul, U32 u32, U32 u32, u64; 0 0 0, 31 31 31, 31 31 0, 0 0 31, 21 21 21, 10 10 20, 31 21 21, 3 4 16),
                _ => ev_mul!(r, fix_u32::mul_wide, U32 u32, U64 u64, u64; 0 0 0, 31 31 63, 31 31 0, 0 0 63, 21 21 40, 20 20 40, 11 9 35),
            }
            Ok(())
        })
    }
}
