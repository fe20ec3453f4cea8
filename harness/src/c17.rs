//! C17: evolution of the statistics of one context.
use crate::nd::*;
use crate::common::*;
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::FixedPoint;
use demixer::history::ContextState;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::node::CostTrackers;
#[cfg(kani)]
use demixer::lut::cost::CostTrackersLut;
#[cfg(kani)]
use demixer::lut::estimator::{DeceleratingEstimatorCache, DeceleratingEstimatorRates};

const CAP: u16 = 1000;

fn any_trackers() -> CostTrackers { CostTrackers::new(CostTracker::new(any()), CostTracker::new(any())) }

/// Any estimator a context can hold: prediction inside (0, 1), count capped.
fn any_estimator() -> DeceleratingEstimator {
    let e = DeceleratingEstimator::verif_from_raw(any());
    assume(e.usage_count() <= CAP && e.verif_raw() >> 10 > 0);
    e
}

fn edge(n: u16, bit: Bit) -> ContextState {
    ContextState::ForEdge { last_occurrence_distance: any(), occurrence_count: n, repeated_bit: bit }
}

/// Contract of `DeceleratingEstimator::update` (C09) for its callers, as an
/// uninterpreted function of estimator and bit: the count goes up by one to
/// the cap, the prediction stays inside (0, 1).
#[cfg(kani)]
static mut UPDATE: Option<(u32, bool, u32)> = None;
#[cfg(kani)]
pub fn update_contract(e: &mut DeceleratingEstimator, bit: Bit, _: &DeceleratingEstimatorRates) {
    assert!(e.usage_count() <= CAP && e.verif_raw() >> 10 > 0, "precondition: valid estimator");
    unsafe {
        if let Some((x, b, r)) = UPDATE {
            if x == e.verif_raw() && b == bit.is_1() { *e = DeceleratingEstimator::verif_from_raw(r); return; }
        }
        let r: u32 = any_in(1 << 10, u32::MAX);
        let n = e.usage_count();
        assume(r & 1023 == (if n < CAP { n + 1 } else { CAP }) as u32);
        if UPDATE.is_none() { UPDATE = Some((e.verif_raw(), bit.is_1(), r)); }
        *e = DeceleratingEstimator::verif_from_raw(r);
    }
}
/// Contract of the table of run estimators (C27): a function of bit and run.
#[cfg(kani)]
static mut CACHED: Option<(u16, bool, u32)> = None;
#[cfg(kani)]
pub fn cache_contract(_: &DeceleratingEstimatorCache, bit: Bit, n: u16) -> DeceleratingEstimator {
    assert!(n <= CAP, "precondition: run within the cap");
    unsafe {
        if let Some((m, b, r)) = CACHED {
            if n == m && b == bit.is_1() { return DeceleratingEstimator::verif_from_raw(r); }
        }
        let r: u32 = any_in(1 << 10, u32::MAX);
        if CACHED.is_none() { CACHED = Some((n, bit.is_1(), r)); }
        DeceleratingEstimator::verif_from_raw(r)
    }
}
/// Contract of the table of run costs (C27): a function of the run.
#[cfg(kani)]
static mut COST: Option<(u16, u16)> = None;
#[cfg(kani)]
pub fn cost_contract(_: &CostTrackersLut, n: u16) -> CostTracker {
    unsafe {
        if let Some((m, r)) = COST {
            if n == m { return CostTracker::new(r); }
        }
        let r: u16 = any();
        if COST.is_none() { COST = Some((n, r)); }
        CostTracker::new(r)
    }
}

harnesses! {
    //@@ of: history::ContextState::{next_state,starting_state,is_for_node,last_occurrence_distance,occurrence_count,recent_bits}
    fn c17_first_occurrence() {
        let (d, b): (usize, Bit) = (any(), any_bit());
        reach!();
        let s = ContextState::verif_starting_state(d, b);
        assert!(!s.is_for_node() && s.last_occurrence_distance() == d && s.occurrence_count() == 1, "first: counted once");
        assert!(s == ContextState::ForEdge { last_occurrence_distance: d, occurrence_count: 1, repeated_bit: b }, "first: its bit");
        assert!(s.recent_bits() == RecentBitsHistory::for_bit_run(b, 1), "first: recent bits");
    }
    fn c17_repeated_bit() {
        let (n, b): (u16, Bit) = (any_in(1, CAP), any_bit());
        let d: usize = any();
        reach!();
        reach!(n == CAP, "at the cap");
        let s = edge(n, b).verif_next_state(d, b, None, some_luts());
        let m = if n < CAP { n + 1 } else { CAP };
        assert!(s == ContextState::ForEdge { last_occurrence_distance: d, occurrence_count: m, repeated_bit: b },
            "repeated bit: one more, same bit");
        assert!(!s.is_for_node() && s.occurrence_count() == m && s.last_occurrence_distance() == d, "repeated bit: read back");
        assert!(s.recent_bits() == RecentBitsHistory::for_bit_run(b, m), "repeated bit: recent bits of the run");
    }
    #[kani::stub(demixer::lut::estimator::DeceleratingEstimatorCache::for_new_node, cache_contract)]
    #[kani::stub(demixer::lut::cost::CostTrackersLut::for_new_node, cost_contract)]
    fn c17_first_opposite_bit() {
        let (n, b): (u16, Bit) = (any_in(1, CAP), any_bit());
        let d: usize = any();
        let luts = some_luts();
        let e = luts.d_estimator_cache().for_new_node(!b, n);
        let c = luts.cost_trackers_lut().for_new_node(n);
        reach!();
        let s = edge(n, b).verif_next_state(d, !b, None, luts);
        assert!(s.is_for_node() && s.last_occurrence_distance() == d, "opposite bit: two-valued from now on");
        match s {
            ContextState::ForNode { last_occurrence_distance, probability_estimator, recent_bits, bits_runs, cost_trackers } => {
                assert!(last_occurrence_distance == d, "opposite bit: distance");
                assert!(probability_estimator.verif_raw() == e.verif_raw(), "opposite bit: estimator of the run and the bit");
                assert!(recent_bits == RecentBitsHistory::for_bit_run(b, n).updated(!b), "opposite bit: recent bits lose nothing");
                assert!(bits_runs == BitsRunsTracker::for_bit_run(b, n).updated(!b), "opposite bit: runs lose nothing");
                assert!(cost_trackers == CostTrackers::new(c, c), "opposite bit: costs of the run and the bit");
            }
            _ => assert!(false, "opposite bit: two-valued"),
        }
    }
    #[kani::stub(demixer::estimators::decelerating::DeceleratingEstimator::update, update_contract)]
    fn c17_two_valued() {
        let luts = some_luts();
        let e = any_estimator();
        let recent: u16 = any();
        assume(recent != 0);
        let recent = RecentBitsHistory::new_unchecked(recent);
        let runs = BitsRunsTracker::verif_from_raw(any());
        let s = ContextState::ForNode {
            last_occurrence_distance: any(), probability_estimator: e, recent_bits: recent, bits_runs: runs,
            cost_trackers: any_trackers(),
        };
        let (d, b): (usize, Bit) = (any(), any_bit());
        let given = any_trackers();
        let mut want = e;
        want.update(b, luts.d_estimator_rates());
        reach!();
        let t = s.verif_next_state(d, b, Some(given.clone()), luts);
        assert!(t.is_for_node() && t.last_occurrence_distance() == d, "two-valued: stays so");
        assert!(t.occurrence_count() == want.usage_count(), "two-valued: count");
        assert!(t.recent_bits() == recent.updated(b), "two-valued: recent bits");
        match t {
            ContextState::ForNode { last_occurrence_distance, probability_estimator, recent_bits, bits_runs, cost_trackers } => {
                assert!(last_occurrence_distance == d && recent_bits == recent.updated(b), "two-valued: recent bits");
                assert!(probability_estimator.verif_raw() == want.verif_raw(), "two-valued: estimator updated on the bit");
                assert!(bits_runs == runs.updated(b), "two-valued: runs updated on the bit");
                assert!(cost_trackers == given, "two-valued: costs as given");
            }
            _ => assert!(false, "two-valued: stays so"),
        }
    }
    #[kani::should_panic]
    fn c17_trackers_for_one_valued() {
        let (n, b): (u16, Bit) = (any_in(1, CAP), any_bit());
        rejects(|| edge(n, b).verif_next_state(any(), any_bit(), Some(any_trackers()), some_luts()));
    }
    #[kani::should_panic]
    fn c17_no_trackers_for_two_valued() {
        let s = ContextState::ForNode {
            last_occurrence_distance: any(), probability_estimator: any_estimator(),
            recent_bits: RecentBitsHistory::new_unchecked(2), bits_runs: BitsRunsTracker::NEW, cost_trackers: any_trackers(),
        };
        rejects(|| s.verif_next_state(any(), any_bit(), None, some_luts()));
    }
    //@@ of: history::ContextState::neutralize_cost_trackers
    fn c17_neutral_costs() {
        let (d, e, recent): (usize, u32, u16) = (any(), any(), any_in(1, 0xffff));
        let runs = BitsRunsTracker::verif_from_raw(any());
        let node = |t: CostTrackers| ContextState::ForNode {
            last_occurrence_distance: d, probability_estimator: DeceleratingEstimator::verif_from_raw(e),
            recent_bits: RecentBitsHistory::new_unchecked(recent), bits_runs: runs, cost_trackers: t,
        };
        let mut s = node(any_trackers());
        reach!();
        s.neutralize_cost_trackers();
        assert!(s == node(CostTrackers::DEFAULT), "neutralize: only the costs");
        let x = edge(any_in(1, CAP), any_bit());
        let mut y = x.clone();
        y.neutralize_cost_trackers();
        assert!(x == y, "neutralize: one-valued contexts have none");
    }
}

#[cfg(not(kani))]
fn replay(run: u16, first: Bit, tail: &[Bit]) -> Result<(), String> {
    let luts = some_luts();
    let rates = luts.d_estimator_rates();
    // by the code under contract
    let mut s = ContextState::verif_starting_state(7, first);
    for i in 1..run { s = s.verif_next_state(i as usize, first, None, luts); }
    // by the history: every piece of it on its own; for a run of ones the
    // estimator is the mirror image
    let flip = |b: Bit| if first.is_0() { b } else { !b };
    let mut est = DeceleratingEstimator::new();
    let mut cost = CostTracker::INITIAL;
    let mut bits: Vec<Bit> = vec![];
    let charge = |cost: CostTracker, est: &DeceleratingEstimator, b: Bit| -> CostTracker {
        use demixer::fixed_point::FixU32;
        let p: demixer::coding::FinalProbability = est.prediction().to_fix_u32();
        cost.updated(p.estimate_cost(b, luts.log2_lut()))
    };
    for _ in 0..run {
        cost = charge(cost, &est, Bit::Zero);
        est.update(Bit::Zero, rates);
        bits.push(first);
    }
    ensure!(s == ContextState::ForEdge { last_occurrence_distance: if run > 1 { run as usize - 1 } else { 7 },
        occurrence_count: run.min(CAP), repeated_bit: first }, "run of {}: {:?}", run, s);
    let mut trackers = None;
    let mut distance = 0;
    let mut swapped = false;
    for (i, &b) in tail.iter().enumerate() {
        if !swapped {
            if b == first { return Err("tail starts with the opposite bit".into()) }
            cost = charge(cost, &est, Bit::One);
            trackers = Some(CostTrackers::new(cost, cost));
            est.update(flip(b), rates);
            if first.is_1() { est = DeceleratingEstimator::make(est.prediction().flip(), est.usage_count()); }
            s = s.verif_next_state(i + 3, b, None, luts);
            swapped = true;
        } else {
            est.update(b, rates);
            trackers = Some(CostTrackers::new(CostTracker::new(i as u16), CostTracker::new(2 * i as u16 + 1)));
            s = s.verif_next_state(i + 3, b, trackers.clone(), luts);
        }
        distance = i + 3;
        bits.push(b);
    }
    if !swapped { return Ok(()) }
    let mut runs = BitsRunsTracker::new();
    let mut recent = RecentBitsHistory::new_unchecked(1);
    for &b in &bits { runs = runs.updated(b); recent = recent.updated(b); }
    let want = ContextState::ForNode {
        last_occurrence_distance: distance, probability_estimator: est, recent_bits: recent, bits_runs: runs,
        cost_trackers: trackers.unwrap(),
    };
    // beyond the cap the run's estimator is the capped one
    if run > CAP { return Ok(()) }
    ensure!(s == want, "run of {} {:?}, then {:?}: {:?} instead of {:?}", run, first, tail, s, want);
    Ok(())
}

evals! {
    //@ of: history::ContextState::{starting_state,next_state}, lut::estimator::DeceleratingEstimatorCache::{new,for_new_node}, lut::cost::CostTrackersLut::{new,for_new_node}
    //@ rule: every run length 1 .. 1100 of either bit, followed by every bit string of up to 6 bits that starts with the other bit; replayed bit by bit
    fn c17_replay() {
        some_luts();
        eval::par(1100 * 2 * 64, |c| {
            let (tail, rest) = (c % 64, c / 64);
            let first: Bit = (rest % 2 == 1).into();
            let run = (rest / 2) as u16 + 1;
            // tail: leading 1 marks the length, following bits are "same as the run"
            let mut bits = vec![];
            if tail > 0 {
                let len = 63 - tail.leading_zeros();
                bits.push(!first);
                for k in (0..len).rev() { bits.push(if tail >> k & 1 == 1 { first } else { !first }) }
            }
            replay(run, first, &bits)
        })
    }
}
