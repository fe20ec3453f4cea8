//! C22: quantizers.
use crate::nd::*;
use demixer::estimators::cost::CostTracker;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::tree::node::CostTrackers;
use demixer::predictor::post_process::verif_quantize_contexts_count as contexts;
use demixer::predictor::single::{SingleContextPredictor,
    verif_quantize_cost_trackers as costs, verif_quantize_distance as distance};
use demixer::util::quantizers::OccurrenceCountQuantizer as Q;

/// Levels 0..3 are the counts themselves; then two levels per octave.
fn spec(c: u16) -> usize {
    if c < 2 { return c as usize }
    let e = 15 - c.leading_zeros();          // c in [2^e, 2^(e+1))
    2 * e as usize + ((c >> (e - 1)) & 1) as usize
}

harnesses! {
    //@@ of: util::quantizers::OccurrenceCountQuantizer::{quantize,max_output}
    fn c22_counts() {
        let c: u16 = any();
        reach!();
        let q = Q::quantize(c);
        assert!(q == spec(c), "quantize: two levels per octave");
        assert!(q <= Q::max_output(), "quantize: bounded by max_output");
        if c < 4 { assert!(q == c as usize, "quantize: exact for small counts"); }
        if c < u16::MAX {
            let r = Q::quantize(c + 1);
            assert!(r == q || r == q + 1, "quantize: monotone, no gaps");
        } else {
            assert!(q == Q::max_output(), "quantize: maximum reached");
        }
        let d: u16 = any();
        assume(d >= c && Q::quantize(d) == q);
        assert!(2 * (d as u32) < 3 * c as u32 || d == c, "quantize: level narrower than a factor of 1.5");
    }
    //@@ of: predictor::single::{quantize_distance,quantize_cost_trackers,SingleContextPredictor::edge_mixer_extra_dimensions,SingleContextPredictor::node_mixer_extra_dimensions}, predictor::post_process::quantize_contexts_count
    fn c22_distance() {
        let d: usize = any();
        let e: usize = any();
        assume(d <= e);
        reach!();
        assert!(distance(d) <= distance(e), "distance: monotone");
        assert!(distance(e) < 4, "distance: within the table");
        let dims = SingleContextPredictor::edge_mixer_extra_dimensions();
        assert!(distance(d) < dims[0] && dims[1] == 2, "distance: fits the edge mixer table");
        assert!(distance(0) == 0 && distance(99) == 0 && distance(100) == 1
            && distance(999) == 1 && distance(1000) == 2 && distance(9999) == 2
            && distance(10000) == 3, "distance: decades");
    }
    fn c22_costs() {
        let (s, n, t, m): (u16, u16, u16, u16) = (any(), any(), any(), any());
        let q = |a: u16, b: u16| costs(&CostTrackers::new(CostTracker::new(a), CostTracker::new(b)));
        reach!();
        let x = q(s, n);
        assert!(x < 6, "costs: within the table");
        assume(s <= t && m <= n);
        assert!(x <= q(t, m), "costs: monotone in the ratio");
        assert!(s >= n || x <= 2, "costs: below one half when stationary is cheaper");
        assert!(s < n || x >= 3, "costs: above one half otherwise");
        let dims = SingleContextPredictor::node_mixer_extra_dimensions();
        assert!(x < dims[0] && distance(s as usize * 7) < dims[1] && Q::quantize(n) < dims[2],
                "costs, distances, counts: fit the node mixer table");
    }
    fn c22_contexts() {
        let a: usize = any();
        let b: usize = any();
        assume(a <= b);
        reach!();
        assert!(contexts(a) <= contexts(b) && contexts(b) < 4, "contexts: monotone, within the table");
        assert!(contexts(0) == 0 && contexts(1) == 0 && contexts(2) == 1
            && contexts(3) == 2 && contexts(4) == 3, "contexts: levels");
    }
}

evals! {}
