//! C03: coder probabilities are admissible.
use crate::nd::*;
use crate::common::*;
use demixer::coding::FinalProbability;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::estimators::fixed_speed::FixedSpeedEstimator;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;

const ONE: u32 = 1 << 23;

fn admissible(p: &FinalProbability) -> bool { p.raw() >= 1 && p.raw() <= ONE - 1 }
fn clamp(x: u64) -> u32 { if x < 1 { 1 } else if x > (ONE - 1) as u64 { ONE - 1 } else { x as u32 } }

harnesses! {
    //@@ of: coding::FinalProbability::{new_unchecked,raw}
    fn c03_constructor() {
        let raw: u32 = any();
        assume(raw <= ONE);
        reach!();
        let p = FinalProbability::new_unchecked(raw);
        assert!(admissible(&p), "constructor: admissible");
        assert!(p.raw() == clamp(raw as u64), "constructor: nearest admissible");
        let q = FinalProbability::new(raw, 23);
        assert!(q == p, "checked constructor: same");
    }
    #[kani::should_panic]
    fn c03_constructor_rejects() {
        let raw: u32 = any();
        assume(raw > ONE);
        rejects(|| FinalProbability::new_unchecked(raw));
    }
    //@@ of: coding::FinalProbability::new_unchecked, fixed_point::{FixU32::to_fix_u32,FixU64::to_fix_u32}
    fn c03_from_u31() {
        // every FractOnlyU32, including the unsafe 1.0
        let raw: u32 = any();
        assume(raw <= ONE31);
        reach!();
        let p: FinalProbability = frac(raw).to_fix_u32();
        assert!(admissible(&p), "31-bit: admissible");
        assert!(p.raw() == clamp(rnd(raw as u64, 8)), "31-bit: rounded, clamped");
    }
    #[kani::should_panic]
    fn c03_from_u31_rejects() {
        let raw: u32 = any();
        assume(raw >= ONE31 + 128);
        rejects(|| frac(raw).to_fix_u32::<FinalProbability>());
    }
    fn c03_from_u63() {
        let raw: u64 = any();
        assume(raw <= 1u64 << 63);
        reach!();
        let p: FinalProbability = FractOnlyU64::new_unchecked(raw).to_fix_u32();
        assert!(admissible(&p), "63-bit: admissible");
        assert!(p.raw() == clamp(rnd(raw, 40)), "63-bit: rounded, clamped");
    }
    fn c03_same() {
        let raw: u32 = any_in(1, ONE - 1);
        reach!();
        let p = FinalProbability::new(raw, 23);
        let q: FinalProbability = p.to_fix_u32();
        assert!(p == q && p.raw() == raw, "conversion to itself");
        // the two bit values share the whole
        let r = FinalProbability::new(ONE - p.raw(), 23);
        assert!(r.raw() + p.raw() == ONE, "complement admissible");
        // back to 31 bits: exact
        let f: FractOnlyU32 = p.to_fix_u32();
        assert!(f.raw() == raw << 8, "to 31 bits: exact");
    }
    //@@ of: estimators::decelerating::DeceleratingEstimator::{make,prediction}, estimators::fixed_speed::FixedSpeedEstimator::prediction
    fn c03_from_estimators() {
        let raw: u32 = any();
        let p: FinalProbability =
            DeceleratingEstimator::verif_from_raw(raw).prediction().to_fix_u32();
        assert!(admissible(&p), "adaptive-rate estimate");
        let f: u16 = any_in(1u16, u16::MAX);
        reach!();
        let q: FinalProbability =
            FixedSpeedEstimator::new(f).prediction().to_fix_u32();
        assert!(admissible(&q), "fixed-rate estimate");
        assert!(q.raw() == (f as u32) << 7, "fixed-rate estimate kept");
    }
    fn c03_estimator_make() {
        let v: u32 = any_in(0, 1u32 << 22);
        let n: u16 = any_in(0, 1000);
        reach!();
        let e = DeceleratingEstimator::make(frac(v << 9), n);
        let p = e.prediction().raw();
        assert!(p > 0 && p < ONE31, "make: estimate strictly inside");
        let fp: FinalProbability = e.prediction().to_fix_u32();
        assert!(fp.raw() == clamp((v as u64) << 1) || v == 0
            || v == 1 << 22, "make: estimate kept");
        assert!(admissible(&fp), "make: admissible");
    }
}

evals! {}
