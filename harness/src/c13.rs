//! C13: recent-bit history.
use crate::nd::*;
use demixer::bit::Bit;
use demixer::history::state::recent_bits::RecentBitsHistory;

/// Abstract view: number of bits held and the bits (most recent lowest).
fn view(h: &RecentBitsHistory) -> (u32, u32) {
    let r = h.verif_raw() as u32;
    let n = 31 - r.leading_zeros();
    (n, r & ((1 << n) - 1))
}

fn spec_updated(v: (u32, u32), b: u32) -> (u32, u32) {
    let n = if v.0 < 15 { v.0 + 1 } else { 15 };
    (n, ((v.1 << 1) | b) & ((1 << n) - 1))
}

fn run(bit: bool, n: u16) -> (u32, u32) {
    let k = if n < 15 { n as u32 } else { 15 };
    (k, if bit { (1u32 << k) - 1 } else { 0 })
}

harnesses! {
    //@@ of: history::state::recent_bits::RecentBitsHistory::{updated,new_unchecked,is_valid}
    fn c13_updated() {
        let raw: u16 = any();
        assume(raw != 0);
        let h = RecentBitsHistory::new_unchecked(raw);
        assert!(h.is_valid() && h.verif_raw() == raw, "valid");
        let b = any_bit();
        reach!();
        let u = h.updated(b);
        assert!(u.is_valid(), "updated: valid");
        assert!(view(&u) == spec_updated(view(&h), b.to_u32()), "updated: spec");
        assert!(!RecentBitsHistory::INVALID.is_valid(), "INVALID");
    }
    //@@ of: history::state::recent_bits::RecentBitsHistory::{histogram,last_7_bits}
    #[kani::unwind(17)]
    fn c13_readers() {
        let raw: u16 = any();
        assume(raw != 0);
        let h = RecentBitsHistory::new_unchecked(raw);
        let (n, bits) = view(&h);
        reach!();
        let ones = bits.count_ones();
        let g = h.histogram() as u32;
        assert!(g >> 4 == ones && g & 15 == n - ones, "histogram: ones and zeros held");
        let s = h.last_7_bits() as u32;
        let k = if n < 7 { n } else { 7 };
        assert!(s == (1 << k) | (bits & ((1 << k) - 1)), "last_7_bits: count and bits");
    }
    #[kani::should_panic]
    fn c13_histogram_rejects() {
        rejects(|| RecentBitsHistory::INVALID.histogram());
    }
    //@@ of: history::state::recent_bits::RecentBitsHistory::{for_bit_run,for_new_node}
    fn c13_runs() {
        let b: bool = any();
        let n: u16 = any();
        reach!();
        let h = RecentBitsHistory::for_bit_run(b.into(), n);
        assert!(view(&h) == run(b, n), "for_bit_run: spec");
        assert!(RecentBitsHistory::for_bit_run(b.into(), n.saturating_add(1)) == h.updated(b.into()),
                "for_bit_run: step");
        assert!(view(&RecentBitsHistory::for_bit_run(b.into(), 0)) == (0, 0), "for_bit_run: empty");
        let m = RecentBitsHistory::for_new_node(b.into(), n);
        assert!(view(&m) == spec_updated(run(!b, n), b as u32), "for_new_node: spec");
    }
}

evals! {}
