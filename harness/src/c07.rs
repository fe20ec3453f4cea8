//! C07: mixers.
use crate::nd::*;
use crate::common::*;
use demixer::bit::Bit;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::lut::squash::SquashLut;
use demixer::mixing::mixer::*;

const MAXI: u16 = demixer::estimators::decelerating::DeceleratingEstimator::MAX_COUNT;
const W_MAX: i32 = 8 << 21;

/// round to nearest, halves away from zero
fn rdiv(x: i64, s: u32) -> i64 {
    let h = 1i64 << (s - 1);
    (if x > 0 { x + h } else if x < 0 { x - h } else { x }) / (1i64 << s)
}
fn clamp(x: i64, m: i64) -> i64 { if x > m { m } else if x < -m { -m } else { x } }

/// The squash table is only used through its contract (C06); here one that is
/// injective, so that nothing else can be confused with it.
#[cfg(kani)]
pub fn squash_contract(_: &SquashLut, x: StretchedProbD) -> FractOnlyU32 {
    frac((x.raw() + (1 << 30)) as u32)
}
#[cfg(kani)]
fn squash_lut() -> &'static SquashLut {
    let b: Box<std::mem::MaybeUninit<SquashLut>> = Box::new_uninit();
    unsafe { &*(Box::into_raw(b) as *const SquashLut) }
}
#[cfg(not(kani))]
fn squash_lut() -> &'static SquashLut {
    static L: std::sync::OnceLock<SquashLut> = std::sync::OnceLock::new();
    L.get_or_init(|| SquashLut::new(&demixer::lut::stretch::StretchLut::new(false), false))
}

/// Contract of `fix_i32::mul` (C05) for its callers, as an uninterpreted
/// function: equal arguments give equal results, the sign is that of the
/// product, and multiplying by a magnitude below one does not enlarge.
/// (All follow from "exact product, rounded to nearest".)
#[cfg(kani)]
static mut MULS: [(i32, i32, i32); 3] = [(0, 0, 0); 3];
#[cfg(kani)]
static mut MULS_N: usize = 0;
#[cfg(kani)]
pub fn mul_contract<A: FixI32, B: FixI32, R: FixI32>(a: &A, b: &B) -> R {
    let d = A::FRACTIONAL_BITS as i32 + B::FRACTIONAL_BITS as i32 - R::FRACTIONAL_BITS as i32;
    assert!(d == 31, "precondition: one factor is a pure fraction");
    let (x, y) = (a.raw(), b.raw());
    assert!(x != i32::MIN && y != i32::MIN, "precondition: magnitude below one");
    unsafe {
        let mut i = 0;
        while i < MULS_N {
            let (p, q, r) = MULS[i];
            if p == x && q == y { return R::new(r, R::FRACTIONAL_BITS); }
            i += 1;
        }
        let r: i32 = any();
        let (ax, ay) = (x.unsigned_abs(), y.unsigned_abs());
        let m = if ax < ay { ax } else { ay };
        if (x < 0) == (y < 0) { assume(r >= 0 && r as u32 <= m) } else { assume(r <= 0 && r.unsigned_abs() <= m) }
        // the products of the specification are remembered; others are
        // arbitrary on every call (weaker, hence sound)
        if MULS_N < 3 { MULS[MULS_N] = (x, y, r); MULS_N += 1; }
        R::new(r, R::FRACTIONAL_BITS)
    }
}

/// The same for `fix_i32::mul_wide` of two numbers with 21 fractional bits
/// into 40: within the stated magnitudes nothing overflows.
#[cfg(kani)]
static mut WIDES: [(i32, i32, i64); 6] = [(0, 0, 0); 6];
#[cfg(kani)]
static mut WIDES_N: usize = 0;
#[cfg(kani)]
pub fn mul_wide_contract<A: FixI32, B: FixI32, R: FixI64>(a: &A, b: &B) -> R {
    let d = A::FRACTIONAL_BITS as i32 + B::FRACTIONAL_BITS as i32 - R::FRACTIONAL_BITS as i32;
    let (x, y) = (a.raw(), b.raw());
    assert!(d == 2 && x.unsigned_abs() <= 1 << 25 && y.unsigned_abs() <= 1 << 25, "precondition: magnitudes");
    unsafe {
        let mut i = 0;
        while i < WIDES_N {
            let (p, q, r) = WIDES[i];
            if p == x && q == y { return R::new(r, R::FRACTIONAL_BITS); }
            i += 1;
        }
        let r: i64 = any_in(-(1 << 48), 1 << 48);
        if WIDES_N < 6 { WIDES[WIDES_N] = (x, y, r); WIDES_N += 1; }
        R::new(r, R::FRACTIONAL_BITS)
    }
}

fn any_sq() -> FractOnlyU32 { frac(any_in(1, ONE31 - 1)) }
fn any_st() -> StretchedProbD { st(any_in(-ST_MAX, ST_MAX)) }
fn any_w() -> MixerWeight { MixerWeight(any_in(-W_MAX, W_MAX)) }

/// Arbitrary weights within the limit and arbitrary inputs, all set.
fn fill<M: Mixer>(m: &mut M, n: usize) {
    let mut i = 0;
    while i < n {
        m.set_input(i, any_sq(), any_st());
        m.inputs_mut()[i].verif_set_weight(any_w());
        i += 1;
    }
}

fn mix<M: Mixer>(mut m: M, n: usize) {
    fill(&mut m, n);
    let mut sum = 0i64;
    let mut i = 0;
    while i < n {
        let p: StretchedProbQ = fix_i32::mul_wide(&m.weight(i), &m.prediction_st(i));
        sum += p.raw();
        i += 1;
    }
    let want = rdiv(clamp(sum, (ST_MAX as i64) << 19), 19);
    reach!();
    let (sq, x) = m.mix_all(squash_lut());
    assert!(-ST_MAX <= x.raw() && x.raw() <= ST_MAX, "mix_all: within the supported limit");
    assert!(x.raw() as i64 == want, "mix_all: weighted sum, rounded and clamped");
    assert!(sq == squash_lut().squash(x), "mix_all: the probability is that of the log-odds");
}

fn update<M: Mixer>(mut m: M, n: usize) {
    fill(&mut m, n);
    let index: u16 = any_in(0, MAXI);
    let limit: u16 = any_in(index, MAXI);
    m.common_mut().verif_set((1u32 << n) - 1, index);
    let rate: u32 = any_in(0, ONE31 - 1);
    let rates = rates_with(index as usize, rate);
    let k: usize = any_in(0, n - 1);
    let (w, x) = (m.weight(k).0 as i64, m.prediction_st(k).raw() as i64);
    let bit = any_bit();
    let sq = any_sq();
    let error = if bit.is_0() { ONE31 - sq.raw() } else { sq.raw() };
    // the step: the error times half the rate
    let f: FractOnlyI32 = fix_i32::mul(&FractOnlyI32::HALF, &FractOnlyI32::new(rate as i32, 31));
    let u: FractOnlyI32 = fix_i32::mul(&FractOnlyI32::new(error as i32, 31), &f);
    let step: MixerWeight = fix_i32::mul(&st(x as i32), &u);
    let step = step.0 as i64;
    reach!();
    m.update_and_reset(bit, sq, limit, &rates);
    let new = m.weight(k).0 as i64;
    assert!(-(W_MAX as i64) <= new && new <= W_MAX as i64, "update: weight within the limit");
    // a larger weight on an input that votes for the coded bit, a smaller one
    // on an input that votes against it
    let towards = if bit.is_0() { x } else { -x };
    assert!(towards <= 0 || new >= w, "update: weight of an agreeing input does not fall");
    assert!(towards >= 0 || new <= w, "update: weight of a disagreeing input does not rise");
    assert!(x != 0 || new == w, "update: weight of an undecided input stays");
    let want = clamp(if bit.is_0() { w + step } else { w - step }, W_MAX as i64);
    assert!(new == want, "update: by error times half the rate times the input");
    let (mask, i) = m.common().verif_parts();
    assert!(mask == 0, "update: all inputs are to be set again");
    assert!(i == if index < limit { index + 1 } else { limit }, "update: rate index");
}

fn set<M: Mixer>(mut m: M, n: usize) {
    fill(&mut m, n);
    let i: usize = any_in(0, n - 1);
    let mask: u32 = any_in(0, (1u32 << n) - 1);
    assume(mask >> i & 1 == 0);
    let index: u16 = any_in(0, MAXI);
    let k: usize = any_in(0, n - 1);
    let (wk, sk, xk) = (m.weight(k), m.prediction_sq(k), m.prediction_st(k));
    m.common_mut().verif_set(mask, index);
    let (s, x) = (any_sq(), any_st());
    reach!();
    m.set_input(i, s, x);
    assert!(m.common().verif_parts() == (mask | 1 << i, index), "set_input: exactly this input is set");
    assert!(m.prediction_sq(i) == s && m.prediction_st(i) == x, "set_input: as given");
    m.common_mut().verif_set((1u32 << n) - 1, index);
    assert!(m.weight(k) == wk && (k == i || m.prediction_sq(k) == sk && m.prediction_st(k) == xk),
        "set_input: nothing else changes");
}

fn set_rejects<M: Mixer>(mut m: M, n: usize) {
    let i: usize = any_in(0, 31);
    let mask: u32 = any_in(0, (1u32 << n) - 1);
    assume(i >= n || mask >> i & 1 == 1);
    m.common_mut().verif_set(mask, any_in(0, MAXI));
    rejects(|| m.set_input(i, any_sq(), any_st()));
}

fn mix_rejects<M: Mixer>(mut m: M, n: usize) {
    fill(&mut m, n);
    m.common_mut().verif_set(any_in(0, (1u32 << n) - 2), any_in(0, MAXI));
    rejects(|| m.mix_all(squash_lut()));
}

fn update_rejects<M: Mixer>(mut m: M, n: usize) {
    fill(&mut m, n);
    let mask: u32 = any_in(0, (1u32 << n) - 1);
    let (index, limit): (u16, u16) = (any_in(0, MAXI), any());
    assume(mask != (1u32 << n) - 1 || limit < index || limit > MAXI);
    m.common_mut().verif_set(mask, index);
    let rates = rates_with(index as usize, 0);
    rejects(|| m.update_and_reset(Bit::Zero, frac(ONE31 / 2), limit, &rates));
}

fn any_mode() -> MixerInitializationMode {
    match any_in(0u8, 2) {
        0 => MixerInitializationMode::AllZero,
        1 => MixerInitializationMode::DominantFirst,
        _ => MixerInitializationMode::EqualSummingToOne,
    }
}

fn starts<M: Mixer>(m: M, n: usize, mode: MixerInitializationMode, index: u16) {
    reach!();
    assert!(m.size() == n && m.inputs().len() == n, "new: size");
    assert!(m.common().verif_parts() == (0, index), "new: no input is set");
    let k: usize = any_in(0, n - 1);
    let one = 1i64 << 21;
    let w = m.weight(k).0 as i64;
    let ok = match mode {
        MixerInitializationMode::AllZero => w == 0,
        MixerInitializationMode::DominantFirst => w == if k == 0 { one } else { 0 },
        MixerInitializationMode::EqualSummingToOne => {
            let d = w * n as i64 - one;
            -(n as i64) < d && d < n as i64
        }
    };
    assert!(ok, "new: weights");
}

#[cfg(not(kani))]
fn sampled(n: usize, r: &mut eval::Rng) -> Result<(), String> {
    let mut m = MixerN::new(n, 0, MixerInitializationMode::EqualSummingToOne);
    let rates = demixer::lut::estimator::DeceleratingEstimatorRates::make_default();
    for step in 0..200u32 {
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() { order.swap(i, r.below(i as u64 + 1) as usize) }
        let mut xs = vec![0i64; n];
        for &i in &order {
            let x = match r.below(4) {
                0 => ST_MAX, 1 => -ST_MAX,
                _ => r.below(2 * ST_MAX as u64 + 1) as i32 - ST_MAX,
            };
            xs[i] = x as i64;
            m.set_input(i, squash_lut().squash(st(x)), st(x));
        }
        let sum: i64 = (0..n).map(|i| rdiv(m.weight(i).0 as i64 * xs[i], 2)).sum();
        let want = rdiv(clamp(sum, (ST_MAX as i64) << 19), 19);
        let (sq, x) = m.mix_all(squash_lut());
        ensure!(x.raw() as i64 == want, "size {} step {}: mixed to {} instead of {}", n, step, x.raw(), want);
        ensure!(sq == squash_lut().squash(x), "size {} step {}: probability", n, step);
        let old: Vec<i64> = (0..n).map(|i| m.weight(i).0 as i64).collect();
        let bit: Bit = (r.below(2) == 1).into();
        let index = m.common().verif_parts().1;
        let f = rdiv((rates[index].raw() as i64) << 30, 31);
        let error = if bit.is_0() { ONE31 - sq.raw() } else { sq.raw() } as i64;
        m.update_and_reset(bit, sq, 20, &rates);
        for i in 0..n {
            let d = rdiv(xs[i] * rdiv(error * f, 31), 31);
            let want = clamp(if bit.is_0() { old[i] + d } else { old[i] - d }, W_MAX as i64);
            ensure!(m.weight(i).0 as i64 == want, "size {} step {}: weight {} is {} instead of {}", n, step, i, m.weight(i).0, want);
        }
    }
    Ok(())
}

harnesses! {
    //@ of: mixing::mixer::Mixer::mix_all, mixing::mixer::Mixer1
    #[kani::solver(kissat)]
    #[kani::unwind(8)]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash_contract)]
    fn c07_mix_all_1() { mix(Mixer1::new(0, MixerInitializationMode::AllZero), 1) }
    //@ of: mixing::mixer::Mixer::update_and_reset, mixing::mixer::Mixer1
    #[kani::unwind(8)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul, mul_contract)]
    fn c07_update_1() { update(Mixer1::new(0, MixerInitializationMode::AllZero), 1) }
    //@ of: mixing::mixer::Mixer::{set_input,prediction_sq,prediction_st,weight}
    #[kani::unwind(8)]
    fn c07_set_input_1() { set(Mixer1::new(0, MixerInitializationMode::AllZero), 1) }
    //@ of: mixing::mixer::Mixer::set_input
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_set_input_rejects_1() { set_rejects(Mixer1::new(0, MixerInitializationMode::AllZero), 1) }
    //@ of: mixing::mixer::Mixer::mix_all
    #[kani::unwind(8)]
    #[kani::should_panic]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash_contract)]
    fn c07_mix_all_rejects_1() { mix_rejects(Mixer1::new(0, MixerInitializationMode::AllZero), 1) }
    //@ of: mixing::mixer::Mixer::update_and_reset
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_update_rejects_1() { update_rejects(Mixer1::new(0, MixerInitializationMode::AllZero), 1) }
    //@ of: mixing::mixer::FixedSizeMixer::new, mixing::mixer::Mixer1::new_neutral
    #[kani::unwind(8)]
    fn c07_new_1() { let (i, m) = (any_in(0, MAXI), any_mode()); starts(Mixer1::new(i, m), 1, m, i) }
    //@ of: mixing::mixer::Mixer1::new_neutral
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_new_rejects_1() { let i: u16 = any_in(MAXI + 1, 65535); rejects(|| Mixer1::new(i, any_mode())) }
    //@ of: mixing::mixer::Mixer::mix_all, mixing::mixer::Mixer2
    #[kani::unwind(8)]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash_contract)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul_wide, mul_wide_contract)]
    fn c07_mix_all_2() { mix(Mixer2::new(0, MixerInitializationMode::AllZero), 2) }
    //@ of: mixing::mixer::Mixer::update_and_reset, mixing::mixer::Mixer2
    #[kani::unwind(8)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul, mul_contract)]
    fn c07_update_2() { update(Mixer2::new(0, MixerInitializationMode::AllZero), 2) }
    //@ of: mixing::mixer::Mixer::{set_input,prediction_sq,prediction_st,weight}
    #[kani::unwind(8)]
    fn c07_set_input_2() { set(Mixer2::new(0, MixerInitializationMode::AllZero), 2) }
    //@ of: mixing::mixer::Mixer::set_input
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_set_input_rejects_2() { set_rejects(Mixer2::new(0, MixerInitializationMode::AllZero), 2) }
    //@ of: mixing::mixer::Mixer::mix_all
    #[kani::unwind(8)]
    #[kani::should_panic]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash_contract)]
    fn c07_mix_all_rejects_2() { mix_rejects(Mixer2::new(0, MixerInitializationMode::AllZero), 2) }
    //@ of: mixing::mixer::Mixer::update_and_reset
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_update_rejects_2() { update_rejects(Mixer2::new(0, MixerInitializationMode::AllZero), 2) }
    //@ of: mixing::mixer::FixedSizeMixer::new, mixing::mixer::Mixer2::new_neutral
    #[kani::unwind(8)]
    fn c07_new_2() { let (i, m) = (any_in(0, MAXI), any_mode()); starts(Mixer2::new(i, m), 2, m, i) }
    //@ of: mixing::mixer::Mixer2::new_neutral
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_new_rejects_2() { let i: u16 = any_in(MAXI + 1, 65535); rejects(|| Mixer2::new(i, any_mode())) }
    //@ of: mixing::mixer::Mixer::mix_all, mixing::mixer::Mixer3
    #[kani::unwind(8)]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash_contract)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul_wide, mul_wide_contract)]
    fn c07_mix_all_3() { mix(Mixer3::new(0, MixerInitializationMode::AllZero), 3) }
    //@ thorough
    //@ of: mixing::mixer::Mixer::update_and_reset, mixing::mixer::Mixer3
    #[kani::unwind(8)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul, mul_contract)]
    fn c07_update_3() { update(Mixer3::new(0, MixerInitializationMode::AllZero), 3) }
    //@ of: mixing::mixer::Mixer::{set_input,prediction_sq,prediction_st,weight}
    #[kani::unwind(8)]
    fn c07_set_input_3() { set(Mixer3::new(0, MixerInitializationMode::AllZero), 3) }
    //@ of: mixing::mixer::Mixer::set_input
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_set_input_rejects_3() { set_rejects(Mixer3::new(0, MixerInitializationMode::AllZero), 3) }
    //@ of: mixing::mixer::Mixer::mix_all
    #[kani::unwind(8)]
    #[kani::should_panic]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash_contract)]
    fn c07_mix_all_rejects_3() { mix_rejects(Mixer3::new(0, MixerInitializationMode::AllZero), 3) }
    //@ of: mixing::mixer::Mixer::update_and_reset
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_update_rejects_3() { update_rejects(Mixer3::new(0, MixerInitializationMode::AllZero), 3) }
    //@ of: mixing::mixer::FixedSizeMixer::new, mixing::mixer::Mixer3::new_neutral
    #[kani::unwind(8)]
    fn c07_new_3() { let (i, m) = (any_in(0, MAXI), any_mode()); starts(Mixer3::new(i, m), 3, m, i) }
    //@ of: mixing::mixer::Mixer3::new_neutral
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_new_rejects_3() { let i: u16 = any_in(MAXI + 1, 65535); rejects(|| Mixer3::new(i, any_mode())) }
    //@ thorough
    //@ of: mixing::mixer::Mixer::mix_all, mixing::mixer::Mixer4
    #[kani::unwind(8)]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash_contract)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul_wide, mul_wide_contract)]
    fn c07_mix_all_4() { mix(Mixer4::new(0, MixerInitializationMode::AllZero), 4) }
    //@ thorough
    //@ of: mixing::mixer::Mixer::update_and_reset, mixing::mixer::Mixer4
    #[kani::unwind(8)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul, mul_contract)]
    fn c07_update_4() { update(Mixer4::new(0, MixerInitializationMode::AllZero), 4) }
    //@ of: mixing::mixer::Mixer::{set_input,prediction_sq,prediction_st,weight}
    #[kani::unwind(8)]
    fn c07_set_input_4() { set(Mixer4::new(0, MixerInitializationMode::AllZero), 4) }
    //@ of: mixing::mixer::Mixer::set_input
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_set_input_rejects_4() { set_rejects(Mixer4::new(0, MixerInitializationMode::AllZero), 4) }
    //@ of: mixing::mixer::Mixer::mix_all
    #[kani::unwind(8)]
    #[kani::should_panic]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash_contract)]
    fn c07_mix_all_rejects_4() { mix_rejects(Mixer4::new(0, MixerInitializationMode::AllZero), 4) }
    //@ of: mixing::mixer::Mixer::update_and_reset
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_update_rejects_4() { update_rejects(Mixer4::new(0, MixerInitializationMode::AllZero), 4) }
    //@ of: mixing::mixer::FixedSizeMixer::new, mixing::mixer::Mixer4::new_neutral
    #[kani::unwind(8)]
    fn c07_new_4() { let (i, m) = (any_in(0, MAXI), any_mode()); starts(Mixer4::new(i, m), 4, m, i) }
    //@ of: mixing::mixer::Mixer4::new_neutral
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_new_rejects_4() { let i: u16 = any_in(MAXI + 1, 65535); rejects(|| Mixer4::new(i, any_mode())) }
    //@ thorough
    //@ of: mixing::mixer::Mixer::mix_all, mixing::mixer::Mixer5
    #[kani::unwind(8)]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash_contract)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul_wide, mul_wide_contract)]
    fn c07_mix_all_5() { mix(Mixer5::new(0, MixerInitializationMode::AllZero), 5) }
    //@ thorough
    //@ of: mixing::mixer::Mixer::update_and_reset, mixing::mixer::Mixer5
    #[kani::unwind(8)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul, mul_contract)]
    fn c07_update_5() { update(Mixer5::new(0, MixerInitializationMode::AllZero), 5) }
    //@ of: mixing::mixer::Mixer::{set_input,prediction_sq,prediction_st,weight}
    #[kani::unwind(8)]
    fn c07_set_input_5() { set(Mixer5::new(0, MixerInitializationMode::AllZero), 5) }
    //@ of: mixing::mixer::Mixer::set_input
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_set_input_rejects_5() { set_rejects(Mixer5::new(0, MixerInitializationMode::AllZero), 5) }
    //@ of: mixing::mixer::Mixer::mix_all
    #[kani::unwind(8)]
    #[kani::should_panic]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash_contract)]
    fn c07_mix_all_rejects_5() { mix_rejects(Mixer5::new(0, MixerInitializationMode::AllZero), 5) }
    //@ of: mixing::mixer::Mixer::update_and_reset
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_update_rejects_5() { update_rejects(Mixer5::new(0, MixerInitializationMode::AllZero), 5) }
    //@ of: mixing::mixer::FixedSizeMixer::new, mixing::mixer::Mixer5::new_neutral
    #[kani::unwind(8)]
    fn c07_new_5() { let (i, m) = (any_in(0, MAXI), any_mode()); starts(Mixer5::new(i, m), 5, m, i) }
    //@ of: mixing::mixer::Mixer5::new_neutral
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_new_rejects_5() { let i: u16 = any_in(MAXI + 1, 65535); rejects(|| Mixer5::new(i, any_mode())) }
    //@ thorough
    //@ of: mixing::mixer::Mixer::mix_all, mixing::mixer::MixerN
    //@ bound: MixerN of six inputs
    #[kani::unwind(8)]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash_contract)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul_wide, mul_wide_contract)]
    fn c07_mix_all_6() { mix(MixerN::new(6, 0, MixerInitializationMode::AllZero), 6) }
    //@ thorough
    //@ of: mixing::mixer::Mixer::update_and_reset, mixing::mixer::MixerN
    //@ bound: MixerN of six inputs
    #[kani::unwind(8)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul, mul_contract)]
    fn c07_update_6() { update(MixerN::new(6, 0, MixerInitializationMode::AllZero), 6) }
    //@ of: mixing::mixer::Mixer::{set_input,prediction_sq,prediction_st,weight}
    //@ bound: MixerN of six inputs
    #[kani::unwind(8)]
    fn c07_set_input_6() { set(MixerN::new(6, 0, MixerInitializationMode::AllZero), 6) }
    //@ of: mixing::mixer::Mixer::set_input
    //@ bound: MixerN of six inputs
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_set_input_rejects_6() { set_rejects(MixerN::new(6, 0, MixerInitializationMode::AllZero), 6) }
    //@ of: mixing::mixer::Mixer::mix_all
    //@ bound: MixerN of six inputs
    #[kani::unwind(8)]
    #[kani::should_panic]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash_contract)]
    fn c07_mix_all_rejects_6() { mix_rejects(MixerN::new(6, 0, MixerInitializationMode::AllZero), 6) }
    //@ of: mixing::mixer::Mixer::update_and_reset
    //@ bound: MixerN of six inputs
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_update_rejects_6() { update_rejects(MixerN::new(6, 0, MixerInitializationMode::AllZero), 6) }
    //@ of: mixing::mixer::MixerN::{new,new_neutral}, mixing::mixer::initialize_weights
    //@ bound: MixerN of six inputs (every size: c07_new_sizes)
    #[kani::unwind(8)]
    fn c07_new_n() { let (i, m) = (any_in(0, MAXI), any_mode()); starts(MixerN::new(6, i, m), 6, m, i) }
    //@ of: mixing::mixer::MixerN::{new,new_neutral}
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_new_n_rejects_size() {
        let n: usize = any_in(31, usize::MAX);
        rejects(|| MixerN::new(n, any(), any_mode()))
    }
    //@ of: mixing::mixer::MixerN::{new,new_neutral}
    //@ bound: MixerN of two inputs
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c07_new_n_rejects_index() {
        let i: u16 = any_in(MAXI + 1, 65535);
        rejects(|| MixerN::new(2, i, any_mode()))
    }
}

evals! {
    //@ of: mixing::mixer::Mixer::{set_input,mix_all,update_and_reset}, mixing::mixer::MixerN::new
    //@ bound: 40 random histories of 200 predictions for every size from 1 to 30
    //@ rule: random inputs and bits; result, probability and every weight recomputed independently
    fn c07_histories() {
        let seed = eval::seed();
        squash_lut();
        eval::par(30 * 40, |c| sampled((c % 30) as usize + 1, &mut eval::Rng(seed.wrapping_mul(0x51ed).wrapping_add(c))))
    }
    //@ of: mixing::mixer::MixerN::{new,new_neutral}, mixing::mixer::MixerInitializationMode::flat_mixer_weight
    //@ rule: every size 1 to 30, every initial rate index, every mode, once
    fn c07_new_sizes() {
        eval::par(30 * (MAXI as u64 + 1) * 3, |c| {
            let n = (c % 30) as usize + 1;
            let i = (c / 30 % (MAXI as u64 + 1)) as u16;
            let mode = [MixerInitializationMode::AllZero, MixerInitializationMode::DominantFirst,
                MixerInitializationMode::EqualSummingToOne][(c / 30 / (MAXI as u64 + 1)) as usize];
            let m = MixerN::new(n, i, mode);
            ensure!(m.size() == n && m.common().verif_parts() == (0, i), "size {} index {}", n, i);
            for k in 0..n {
                let w = m.weight(k).0 as i64;
                let ok = match mode {
                    MixerInitializationMode::AllZero => w == 0,
                    MixerInitializationMode::DominantFirst => w == if k == 0 { 1 << 21 } else { 0 },
                    MixerInitializationMode::EqualSummingToOne => (w * n as i64 - (1 << 21)).abs() < n as i64,
                };
                ensure!(ok, "size {} index {}: weight {} is {}", n, i, k, w);
            }
            Ok(())
        })
    }
}
