//! C11: cost trackers.
use crate::nd::*;
use crate::common::*;
use demixer::coding::FinalProbability;
use demixer::estimators::cost::CostTracker;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;

fn spec(x: u16, c: i32) -> u16 {
    let d = x as u32 - (x as u32 + 8) / 16 + c as u32;
    if d > 65535 { 65535 } else { d as u16 }
}
// (x + 8) / 16 in the code saturates x + 8 at 65535: same quotient up to one
fn spec_ok(x: u16, c: i32, r: u16) -> bool {
    r == spec(x, c)
        // within half a divisor of the end the rounding may be one smaller
        || x > 65535 - 8 && {
            let d = x as u32 - ((x as u32 + 8) / 16 - 1) + c as u32;
            r as u32 == if d > 65535 { 65535 } else { d }
        }
}

harnesses! {
    //@@ of: estimators::cost::CostTracker::{new,raw,updated}
    fn c11_updated() {
        let x: u16 = any();
        let c: i32 = any_in(1, 65535);
        reach!();
        let t = CostTracker::new(x);
        assert!(t.raw() == x, "new: kept");
        let r = t.updated(Log2D::new(c, 11)).raw();
        assert!(spec_ok(x, c, r), "updated: 15/16 of the value plus the cost");
    }
    fn c11_bounded() {
        // values stay within sixteen times the largest cost (plus rounding)
        let m: i32 = any_in(1, 65535);
        let c: i32 = any_in(1, 65535);
        let x: u16 = any();
        assume(c <= m && x as i64 <= 16 * m as i64 + 7);
        reach!();
        let r = CostTracker::new(x).updated(Log2D::new(c, 11)).raw();
        assert!(r as i64 <= 16 * m as i64 + 7, "updated: bounded by 16 x cost");
        // and from above they come down
        let y: u16 = any();
        assume(y as i64 > 16 * m as i64 + 8);
        let s = CostTracker::new(y).updated(Log2D::new(c, 11)).raw();
        assert!(s < y || y > 65527 && s == y, "updated: decays towards the costs");
    }
    fn c11_ordered() {
        let x: u16 = any();
        let y: u16 = any();
        let c: i32 = any_in(1, 65535);
        assume(x <= y);
        reach!();
        let a = CostTracker::new(x).updated(Log2D::new(c, 11)).raw();
        let b = CostTracker::new(y).updated(Log2D::new(c, 11)).raw();
        assert!(a <= b, "updated: order preserved");
        let d: i32 = any_in(1, 65535);
        assume(d >= c);
        assert!(CostTracker::new(x).updated(Log2D::new(d, 11)).raw() >= a, "updated: monotone in the cost");
    }
    #[kani::should_panic]
    fn c11_rejects() {
        let c: i32 = any();
        assume(c <= 0 || c > 65535);
        let x: u16 = any();
        rejects(|| CostTracker::new(x).updated(Log2D::new(c, 11)));
    }
    fn c11_initial() {
        assert!(CostTracker::INITIAL.raw() == 1 << 15, "initial: one bit per bit");
        // steady state of a cost of one bit
        let r = CostTracker::INITIAL.updated(Log2D::new(1 << 11, 11));
        assert!(r.raw() == 1 << 15, "initial: fixed point of one bit");
        reach!();
    }
}

evals! {
    fn c11_on_bit() {
        // updated_on_bit = updated by the estimated cost: every 23-bit
        // probability and both bits (real log2 table)
        let luts = demixer::lut::LookUpTables::new();
        eval::par((1 << 23) - 1, |i| {
            let raw = i as u32 + 1;
            let x = (raw.wrapping_mul(2654435761) >> 16) as u16;
            let p = frac(raw << 8);
            for b in [false, true] {
                let t = CostTracker::new(x).updated_on_bit(p, b.into(), &luts);
                let c = FinalProbability::new(raw, 23).estimate_cost(b.into(), luts.log2_lut());
                ensure!(spec_ok(x, c.raw(), t.raw()), "updated_on_bit({}, {}, {}) = {}", x, raw, b, t.raw());
            }
            Ok(())
        })
    }
}
