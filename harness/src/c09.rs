//! C09: adaptive-rate estimator.
use crate::nd::*;
use crate::common::*;
use demixer::bit::Bit;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::lut::estimator::DeceleratingEstimatorRates;

const TOP: u32 = 1 << 22; // 1.0 in the packed prediction

fn inv(e: &DeceleratingEstimator) -> bool {
    let raw = e.verif_raw();
    let p = raw >> 10;
    p >= 1 && p < TOP && (raw & 1023) <= 1000
}

/// A rate table with an arbitrary rate (0 .. 1) for the count in question.
fn rates(count: u16, rate: u32) -> DeceleratingEstimatorRates {
    let mut t = [frac(0); 1024];
    t[count as usize] = frac(rate);
    DeceleratingEstimatorRates::verif_from_table(t)
}

harnesses! {
    //@@ of: estimators::decelerating::DeceleratingEstimator::{update,prediction,usage_count}
    //@ timeout: 300
    #[kani::solver(kissat)]
    fn c09_update_bounds() {
        let mut e = DeceleratingEstimator::verif_from_raw(any());
        assume(inv(&e));
        let rate: u32 = any();
        assume(rate < ONE31);
        let n = e.usage_count();
        let lut = rates(n, rate);
        let p = e.prediction().raw();
        assert!(p > 0 && p < ONE31 && p == (e.verif_raw() >> 10) << 9, "prediction: strictly inside");
        let b = any_bit();
        reach!();
        e.update(b, &lut);
        assert!(inv(&e), "update: invariant");
        assert!(e.usage_count() == if n < 1000 { n + 1 } else { 1000 }, "update: count");
        let q = e.prediction().raw();
        assert!(q > 0 && q < ONE31, "update: prediction strictly inside");
        if b.is_0() { assert!(q >= p, "update: moves towards 0 bit"); }
        else { assert!(q <= p, "update: moves towards 1 bit"); }
    }
    //@ timeout: 300
    #[kani::solver(kissat)]
    fn c09_update_step() {
        // the step is rate * error, rounded to the packed resolution
        let mut e = DeceleratingEstimator::verif_from_raw(any());
        assume(inv(&e));
        let rate: u32 = any();
        assume(rate < ONE31);
        let n = e.usage_count();
        let lut = rates(n, rate);
        let p = (e.verif_raw() >> 10) as i64;
        let b = any_bit();
        reach!();
        e.update(b, &lut);
        let q = (e.verif_raw() >> 10) as i64;
        let one = if b.is_0() { 1i64 << 31 } else { 0 };
        let error = one - (p << 9);
        let exact = error * rate as i64;              // scaled by 2^(22 + 40)
        let d = (q << 40) - (p << 40) - exact;
        let half = 1i64 << 39;
        assert!(-half <= d && d <= half || q == 1 && d >= 0 || q == TOP as i64 - 1 && d <= 0,
                "update: step is the prescribed fraction of the error");
    }
    //@ of: estimators::decelerating::DeceleratingEstimator::{make,new,prediction,usage_count}
    fn c09_make() {
        let v: u32 = any_in(0, TOP);
        let n: u16 = any_in(0, 1000);
        reach!();
        let e = DeceleratingEstimator::make(frac(v << 9), n);
        assert!(inv(&e), "make: invariant");
        assert!(e.usage_count() == n, "make: count");
        let x = if v == 0 { 1 } else if v == TOP { TOP - 1 } else { v };
        assert!(e.prediction().raw() == x << 9, "make: prediction");
        let f = DeceleratingEstimator::new();
        assert!(f.prediction().raw() == 1 << 30 && f.usage_count() == 0, "new: one half, unused");
    }
    //@ of: estimators::decelerating::DeceleratingEstimator::make
    #[kani::should_panic]
    fn c09_make_rejects() {
        let v: u32 = any();
        let n: u16 = any();
        assume(v & 511 != 0 || n > 1000 || v > ONE31);
        rejects(|| DeceleratingEstimator::make(frac(v), n));
    }
}

evals! {
    fn c09_default_rates() {
        // the default table: strictly decreasing steps down to the cap, each
        // rate the documented 1 / (count + 2)
        let lut = DeceleratingEstimatorRates::make_default();
        for n in 0..1024u16 {
            let r = lut[n].raw() as u64;
            ensure!(r == (1u64 << 31) / (n as u64 + 2), "rate {} = {}", n, r);
        }
        Ok(eval::Report { evaluations: 1024, distinct: 1024, samples: vec![] })
    }
    //@ of: estimators::decelerating::DeceleratingEstimator::update
    fn c09_every_step() {
        // every reachable (prediction, count), both bits, default rates
        let lut = DeceleratingEstimatorRates::make_default();
        let step = if eval::thorough() { 1 } else { 1 };
        eval::par((TOP as u64 - 1) / step, |i| {
            let p = 1 + (i * step) as u32;
            for n in 0..=1000u32 {
                let rate = lut[n as u16].raw() as i64;
                for b in [Bit::Zero, Bit::One] {
                    let mut e = DeceleratingEstimator::verif_from_raw(p << 10 | n);
                    e.update(b, &lut);
                    let raw = e.verif_raw();
                    let q = (raw >> 10) as i64;
                    let err = if b.is_0() { (TOP - p) as i64 } else { -(p as i64) };
                    let d = ((q - p as i64) << 31) - err * rate;
                    let ok = q >= 1 && q < TOP as i64 && (raw & 1023) == (n + 1).min(1000)
                        && (d.abs() <= 1 << 30 || q == 1 && d >= 0
                            || q == TOP as i64 - 1 && d <= 0);
                    ensure!(ok, "update of prediction {} count {} on {:?}: {} {}", p, n, b, q, raw & 1023);
                }
            }
            Ok(())
        }).map(|mut r| { r.evaluations *= 2002; r.distinct *= 2002; r })
    }
}
