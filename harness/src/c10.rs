//! C10: fixed-rate estimator.
use crate::nd::*;
use demixer::estimators::fixed_speed::FixedSpeedEstimator;
use demixer::fixed_point::FixedPoint;

harnesses! {
    //@@ of: estimators::fixed_speed::FixedSpeedEstimator::{new,update,prediction,default}
    fn c10_update() {
        let p: u16 = any();
        assume(p != 0);
        let mut e = FixedSpeedEstimator::new(p);
        assert!(e.prediction().raw() == (p as u32) << 15, "prediction: 16-bit fraction");
        let b = any_bit();
        reach!();
        e.update(b);
        let q = e.prediction().raw();
        assert!(q > 0 && q < 1 << 31, "update: strictly between 0 and 1");
        assert!(q & 0x7fff == 0, "update: 16 bits");
        let q = q >> 15;
        let p = p as u32;
        let want = if b.is_0() { p + (65536 - p) / 128 } else { p - p / 128 };
        assert!(q == want, "update: 1/128 of the distance, rounded down");
        assert!(if b.is_0() { q >= p } else { q <= p }, "update: direction");
    }
    fn c10_initial() {
        let e = FixedSpeedEstimator::default();
        assert!(e.prediction().raw() == 1 << 30, "default: one half");
        reach!();
    }
    #[kani::should_panic]
    fn c10_new_rejects_zero() {
        rejects(|| FixedSpeedEstimator::new(0));
    }
}

evals! {}
