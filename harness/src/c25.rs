//! C25: compressor and decompressor in lockstep.
use crate::nd::*;
use crate::common::*;
#[cfg(not(kani))]
use crate::ensure;
#[cfg(not(kani))]
use crate::hist::*;
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::fixed_point::*;
use demixer::lut::LookUpTables;
use demixer::predictor::Predictor;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::*;
use demixer::history::ContextState;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::node::CostTrackers;
#[cfg(kani)]
use demixer::lut::estimator::{DeceleratingEstimatorPredictions, DeceleratingEstimatorRates};
#[cfg(kani)]
use demixer::lut::stretch::StretchLut;
#[cfg(kani)]
use demixer::lut::squash::SquashLut;
use demixer::mixing::mixer::*;
use demixer::predictor::kits::MixersWithIndexer;
use demixer::predictor::single::SingleContextPredictor;
use demixer::predictor::post_process::PredictionFinalizer;
use demixer::util::last_bytes::LastBytesCache;
#[cfg(kani)]
use demixer::lut::apm::ApmWeightingLut;
#[cfg(kani)]
use demixer::mixing::apm::AdaptiveProbabilityMap;
use demixer::util::indexer::{IndexCommon, IndexDimension, Indexer};

/// An indexer as its callers may assume it (C21): every part of the index is
/// below the limit of its dimension and all parts are given.  The table behind
/// it has one entry, which stands for any of them.
pub struct AnyIndexer { limits: [usize; 5], count: usize, at: usize }
impl Indexer for AnyIndexer {
    fn new(dimensions: Vec<usize>) -> Self {
        let mut r = Self::new_uninitialized();
        r.count = dimensions.len();
        assert!(r.count <= 5);
        let mut i = 0;
        while i < r.count { r.limits[i] = dimensions[i]; i += 1; }
        r
    }
    fn new_uninitialized() -> Self { AnyIndexer { limits: [0; 5], count: 0, at: 0 } }
    fn get_array_size(&mut self) -> usize { 1 }
    fn with_sub_index(&mut self, value: usize) -> &mut Self {
        assert!(self.at < self.count, "precondition: no part of the index too many");
        assert!(value < self.limits[self.at], "precondition: the part of the index is within its dimension");
        self.at += 1;
        self
    }
    fn get_array_index_and_reset(&mut self) -> usize {
        assert!(self.at == self.count, "precondition: all parts of the index are given");
        self.at = 0;
        0
    }
    fn dimensions_mut(&mut self) -> &mut [IndexDimension] { unreachable!() }
    fn common_mut(&mut self) -> &mut IndexCommon { unreachable!() }
    fn inputs_num(&mut self) -> usize { self.count }
}

// Contracts of the parts a prediction is made of, for their callers.
/// C09: strictly between 0 and 1.
#[cfg(kani)]
pub fn estimate(_: &DeceleratingEstimator) -> FractOnlyU32 { frac(any_in(1, ONE31 - 1)) }
#[cfg(kani)]
pub fn learn(e: &mut DeceleratingEstimator, _: Bit, _: &DeceleratingEstimatorRates) {
    *e = DeceleratingEstimator::verif_from_raw(any());
}
/// C06: defined strictly between 0 and 1; within the limits.
#[cfg(kani)]
pub fn stretch(_: &StretchLut, p: FractOnlyU32) -> StretchedProbD {
    assert!(1 <= p.raw() && p.raw() < ONE31, "precondition: strictly between 0 and 1");
    st(any_in(-ST_MAX, ST_MAX))
}
#[cfg(kani)]
pub fn squash(_: &SquashLut, x: StretchedProbD) -> FractOnlyU32 {
    assert!(-ST_MAX <= x.raw() && x.raw() <= ST_MAX, "precondition: within the limits");
    frac(any_in(1, ONE31 - 1))
}
/// C27: the prediction after a run, strictly between 0 and 1, with its
/// log-odds.
#[cfg(kani)]
pub fn direct(_: &DeceleratingEstimatorPredictions, n: u16) -> (FractOnlyU32, StretchedProbD) {
    assert!(n <= ContextState::MAX_OCCURRENCE_COUNT, "precondition: run within the cap");
    (frac(any_in(1, ONE31 - 1)), st(any_in(-ST_MAX, ST_MAX)))
}
/// C26 with C10: defined strictly between 0 and 1.
#[cfg(kani)]
pub fn costs(_: &CostTrackers, s: FractOnlyU32, n: FractOnlyU32, _: Bit, _: &LookUpTables) -> CostTrackers {
    assert!(1 <= s.raw() && s.raw() < ONE31 && 1 <= n.raw() && n.raw() < ONE31, "precondition: strictly between 0 and 1");
    any_costs()
}
/// A table of arbitrary contents in place of one of equal elements.
#[cfg(kani)]
pub fn any_table<T: Clone>(_: T, n: usize) -> Vec<T> { any_vec(n) }
/// C05: multiplying by a pure fraction does not enlarge and has the sign of
/// the product; wide products of
/// bounded numbers are bounded.
#[cfg(kani)]
pub fn mul<A: FixI32, B: FixI32, R: FixI32>(a: &A, b: &B) -> R {
    assert!(A::FRACTIONAL_BITS as i32 + B::FRACTIONAL_BITS as i32 - R::FRACTIONAL_BITS as i32 == 31, "precondition: one factor is a pure fraction");
    let (x, y) = (a.raw(), b.raw());
    assert!(x != i32::MIN && y != i32::MIN, "precondition: magnitude below one");
    let r: i32 = any();
    assume(r.unsigned_abs() <= x.unsigned_abs() && r.unsigned_abs() <= y.unsigned_abs());
    assume(if (x < 0) == (y < 0) { r >= 0 } else { r <= 0 });
    R::new(r, R::FRACTIONAL_BITS)
}
#[cfg(kani)]
pub fn mul_wide<A: FixI32, B: FixI32, R: FixI64>(a: &A, b: &B) -> R {
    assert!(A::FRACTIONAL_BITS as i32 + B::FRACTIONAL_BITS as i32 - R::FRACTIONAL_BITS as i32 == 2
        && a.raw().unsigned_abs() <= 1 << 25 && b.raw().unsigned_abs() <= 1 << 25, "precondition: magnitudes");
    R::new(any_in(-(1i64 << 48), 1 << 48), R::FRACTIONAL_BITS)
}

fn any_costs() -> CostTrackers { CostTrackers::new(CostTracker::new(any()), CostTracker::new(any())) }

/// Any statistics a context can hold (C17).
fn any_edge() -> ContextState {
    ContextState::ForEdge {
        last_occurrence_distance: any(),
        occurrence_count: any_in(1, ContextState::MAX_OCCURRENCE_COUNT),
        repeated_bit: any_bit(),
    }
}
fn any_node() -> ContextState {
    let e = DeceleratingEstimator::verif_from_raw(any());
    assume(e.usage_count() <= ContextState::MAX_OCCURRENCE_COUNT && e.verif_raw() >> 10 > 0);
    let recent: u16 = any();
    assume(recent != 0);
    let runs = BitsRunsTracker::for_bit_run(any_bit(), any_in(1, ContextState::MAX_OCCURRENCE_COUNT)).updated(any_bit());
    let runs = if any() { runs } else { runs.updated(any_bit()) };
    ContextState::ForNode {
        last_occurrence_distance: any(),
        probability_estimator: e,
        recent_bits: RecentBitsHistory::new_unchecked(recent),
        bits_runs: runs,
        cost_trackers: any_costs(),
    }
}

fn any_weights<M: Mixer>(mut m: M) -> M {
    let mut i = 0;
    while i < m.size() {
        m.inputs_mut()[i].verif_set_weight(MixerWeight(any_in(-(8 << 21), 8 << 21)));
        i += 1;
    }
    m
}

/// One prediction from one context and the update after it, whatever the
/// statistics of the context and whatever was learnt before.
fn one_context<M: Mixer, F: Fn() -> M>(maker: F, extra: Vec<usize>, s: ContextState) {
    let luts = some_luts();
    // the learning rates used here are below one (C27)
    let mut i = 9;
    while i < 13 { assume(luts.d_estimator_rates()[i].raw() < ONE31); i += 1; }
    let mut kit: MixersWithIndexer<M, AnyIndexer> = MixersWithIndexer::new(|| any_weights(maker()), AnyIndexer::new(extra));
    let mut p = SingleContextPredictor::new(luts);
    let lower = (frac(any_in(1, ONE31 - 1)), st(any_in(-ST_MAX, ST_MAX)));
    let (byte, bit) = (any_in(1u8, 255), any_bit());
    let r = p.predict(&mut kit, &s, byte, lower, luts);
    reach!();
    assert!(1 <= r.0.raw() && r.0.raw() < ONE31, "predict: strictly between 0 and 1");
    assert!(-ST_MAX <= r.1.raw() && r.1.raw() <= ST_MAX, "predict: log-odds within the limits");
    let costs = p.update(&mut kit, &s, bit, luts);
    assert!(costs.is_some() == s.is_for_node(), "update: cost trackers of a node, and only of a node");
    // ready for the next bit
    let r = p.predict(&mut kit, &s, byte, lower, luts);
    assert!(1 <= r.0.raw() && r.0.raw() < ONE31, "predict again: strictly between 0 and 1");
}

// Contracts of the adaptive maps (C08) for their callers: one map entry per
// context stands for the curve of the context; the weight remembers the context.
#[cfg(kani)]
pub fn apm_new(contexts: usize, bits: u8, _: &SquashLut) -> AdaptiveProbabilityMap {
    assert!(bits == 0, "precondition: weighting table of the finalizer");
    AdaptiveProbabilityMap::verif_from_parts(any_vec(contexts), bits, contexts, -1, frac(0))
}
#[cfg(kani)]
pub fn apm_refine(m: &mut AdaptiveProbabilityMap, context: usize, sq: FractOnlyU32, x: StretchedProbD, _: &ApmWeightingLut) -> FractOnlyU32 {
    assert!(context < m.verif_mappings().len(), "precondition: a context of the map");
    assert!(m.verif_saved().0 == -1, "precondition: refine paired with update");
    assert!(1 <= sq.raw() && sq.raw() < ONE31 && -ST_MAX <= x.raw() && x.raw() <= ST_MAX, "precondition: admissible probability");
    let contexts = m.verif_mappings().len();
    *m = AdaptiveProbabilityMap::verif_from_parts(any_vec(contexts), 0, contexts, 0, frac(context as u32));
    frac(any_in(1, ONE31 - 1))
}
#[cfg(kani)]
pub fn apm_update(m: &mut AdaptiveProbabilityMap, context: usize, _: Bit, rate: u8, _: bool) {
    let contexts = m.verif_mappings().len();
    assert!(m.verif_saved().0 >= 0 && context < contexts, "precondition: refine paired with update");
    assert!(m.verif_saved().1.raw() == context as u32, "precondition: update of the context refined");
    assert!(0 < rate && rate < 30, "precondition: rate");
    *m = AdaptiveProbabilityMap::verif_from_parts(any_vec(contexts), 0, contexts, -1, frac(0));
}

/// One final adjustment and the update after it, for any recent bytes.
fn finalize() {
    let luts = some_luts();
    let bytes = LastBytesCache::verif_from_parts(any_in(0, 7), any());
    let mut p = PredictionFinalizer::new(luts);
    let n: usize = any_in(1, 21);
    let mut round = 0;
    loop {
        // a probability and its log-odds as the mixers give them
        let x = st(any_in(-ST_MAX, ST_MAX));
        let sq = luts.squash_lut().squash(x);
        reach!(round == 1, "second bit");
        let r = p.refine(sq, x, n, &bytes);
        assert!(1 <= r.raw() && r.raw() < 1 << 23, "refine: strictly between 0 and 1");
        if round == 1 { break }
        p.update(any_bit(), n, &bytes);
        round += 1;
    }
}

/// How the next bit is chosen from the probability of bit 0 (23 bits).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Steer { Data, Likely, Unlikely, Mixed }

/// Drives one predictor; returns the bytes and every probability.
#[cfg(not(kani))]
pub fn drive(p: &mut Predictor, x: &[u8], steer: Steer, salt: u64) -> Result<(Vec<u8>, Vec<u32>), String> {
    let mut r = eval::Rng(salt);
    let mut bytes = Vec::with_capacity(x.len());
    let mut probs = Vec::with_capacity(x.len() * 8);
    for (i, &byte) in x.iter().enumerate() {
        p.start_new_byte();
        let mut got = 0u8;
        for k in (0..8).rev() {
            let pr = p.predict().raw();
            ensure!(pr >= 1 && pr < 1 << 23, "byte {} bit {}: probability {} of 2^23", i, k, pr);
            probs.push(pr);
            let likely: Bit = (pr < 1 << 22).into();
            let data = bit_at(byte, k);
            let b = match steer {
                Steer::Data => data,
                Steer::Likely => if r.below(500) == 0 { data } else { likely },
                Steer::Unlikely => if r.below(50) == 0 { data } else { !likely },
                Steer::Mixed => match (i / 64) % 3 { 0 => data, 1 => likely, _ => !likely },
            };
            got |= b.to_u8() << k;
            p.update(b);
        }
        bytes.push(got);
    }
    Ok((bytes, probs))
}

#[cfg(not(kani))]
pub fn encode(x: &[u8], luts: &LookUpTables) -> Vec<u8> {
    let mut out = Vec::new();
    {
        let mut e = Encoder::new(&mut out);
        let mut p = Predictor::new(luts);
        for &byte in x {
            p.start_new_byte();
            for k in (0..8).rev() {
                let pr = p.predict();
                let b = bit_at(byte, k);
                e.encode_bit(pr, b);
                p.update(b);
            }
        }
    }
    out
}

#[cfg(not(kani))]
pub fn decode(code: &[u8], n: usize, luts: &LookUpTables) -> Vec<u8> {
    let mut src = code;
    let mut out = Vec::new();
    let mut d = Decoder::new(&mut src);
    let mut p = Predictor::new(luts);
    for _ in 0..n {
        p.start_new_byte();
        let mut byte = 0u8;
        for k in (0..8).rev() {
            let pr = p.predict();
            let b = d.decode_bit(pr);
            byte |= b.to_u8() << k;
            p.update(b);
        }
        out.push(byte);
    }
    out
}

#[cfg(not(kani))]
pub fn lockstep(x: &[u8], steer: Steer, salt: u64) -> Result<(), String> {
    let luts = luts();
    let run = || -> Result<(), String> {
        let (y, probs) = drive(&mut Predictor::new(luts), x, steer, salt)?;
        // created later, fed the same bits
        let (_, again) = drive(&mut Predictor::new(luts), &y, Steer::Data, 0)?;
        if let Some(i) = probs.iter().zip(again.iter()).position(|(a, b)| a != b) {
            return Err(format!("predictors disagree on bit {} of {}: {} and {}", i, shown(&y), probs[i], again[i]));
        }
        let code = encode(&y, luts);
        let back = decode(&code, y.len(), luts);
        ensure!(back == y, "{} restored as {}", shown(&y), shown(&back));
        Ok(())
    };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)) {
        Ok(r) => r.map_err(|e| format!("{:?} input {} case {}: {}", steer, shown(x), salt, e)),
        Err(e) => Err(format!("{:?} input {} case {}: panicked: {}", steer, shown(x), salt, eval::message(&e))),
    }
}

/// Two predictors over different inputs, driven by turns on one thread, with
/// others created in between: each must give what it gives alone.
#[cfg(not(kani))]
pub fn interleaved(x: &[u8], y: &[u8], luts: &LookUpTables, case: u64) -> Result<(), String> {
    let (_, px) = drive(&mut Predictor::new(luts), x, Steer::Data, 0)?;
    let (_, py) = drive(&mut Predictor::new(luts), y, Steer::Data, 0)?;
    let mut r = eval::Rng(case);
    let mut both = [Predictor::new(luts), Predictor::new(luts)];
    let input = [x, y];
    let alone = [px, py];
    let mut at = [0usize; 2];
    while at[0] < x.len() * 8 || at[1] < y.len() * 8 {
        // either may run ahead; sometimes strictly by turns between predict and update
        let (a, b) = match r.below(4) { 0 => (true, false), 1 => (false, true), _ => (true, true) };
        let go = [a && at[0] < x.len() * 8, b && at[1] < y.len() * 8];
        for w in 0..2 { if go[w] && at[w] % 8 == 0 { both[w].start_new_byte() } }
        for w in 0..2 {
            if !go[w] { continue }
            let pr = both[w].predict().raw();
            ensure!(pr == alone[w][at[w]], "bit {} of {}: {} beside another predictor, {} alone",
                    at[w], shown(input[w]), pr, alone[w][at[w]]);
        }
        if r.below(4000) == 0 { let mut p = Predictor::new(luts); p.start_new_byte(); p.predict(); p.update(true.into()); }
        for w in 0..2 {
            if !go[w] { continue }
            both[w].update(bit_at(input[w][at[w] / 8], 7 - at[w] % 8));
            at[w] += 1;
        }
    }
    Ok(())
}

harnesses! {
    //@@ of: predictor::single::SingleContextPredictor::{new,predict,update,new_edge_mixer,new_node_mixer,edge_mixer_extra_dimensions,node_mixer_extra_dimensions}, predictor::kits::EstimatorsWithIndexer::{new,predict,update}, predictor::kits::MixersWithIndexer::{new,predict,update,current_mixer}
    #[kani::unwind(8)]
    #[kani::stub(demixer::estimators::decelerating::DeceleratingEstimator::prediction, estimate)]
    #[kani::stub(demixer::estimators::decelerating::DeceleratingEstimator::update, learn)]
    #[kani::stub(demixer::lut::stretch::StretchLut::stretch, stretch)]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash)]
    #[kani::stub(demixer::history::tree::node::CostTrackers::updated, costs)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul, mul)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul_wide, mul_wide)]
    #[kani::stub(demixer::lut::estimator::DeceleratingEstimatorPredictions::for_0_bit_run, direct)]
    #[kani::stub(std::vec::from_elem, any_table)]
    fn c25_edge_context() {
        one_context(SingleContextPredictor::new_edge_mixer, SingleContextPredictor::edge_mixer_extra_dimensions(), any_edge())
    }
    #[kani::unwind(8)]
    #[kani::stub(demixer::estimators::decelerating::DeceleratingEstimator::prediction, estimate)]
    #[kani::stub(demixer::estimators::decelerating::DeceleratingEstimator::update, learn)]
    #[kani::stub(demixer::lut::stretch::StretchLut::stretch, stretch)]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash)]
    #[kani::stub(demixer::history::tree::node::CostTrackers::updated, costs)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul, mul)]
    #[kani::stub(demixer::fixed_point::fix_i32::mul_wide, mul_wide)]
    #[kani::stub(demixer::lut::estimator::DeceleratingEstimatorPredictions::for_0_bit_run, direct)]
    #[kani::stub(std::vec::from_elem, any_table)]
    fn c25_node_context() {
        one_context(SingleContextPredictor::new_node_mixer, SingleContextPredictor::node_mixer_extra_dimensions(), any_node())
    }
    //@@ of: predictor::post_process::PredictionFinalizer::{new,refine,update}
    #[kani::solver(kissat)]
    #[kani::unwind(8)]
    #[kani::stub(demixer::lut::stretch::StretchLut::stretch, stretch)]
    #[kani::stub(demixer::lut::squash::SquashLut::squash, squash)]
    #[kani::stub(demixer::mixing::apm::AdaptiveProbabilityMap::new, apm_new)]
    #[kani::stub(demixer::mixing::apm::AdaptiveProbabilityMap::refine, apm_refine)]
    #[kani::stub(demixer::mixing::apm::AdaptiveProbabilityMap::update_predictions, apm_update)]
    fn c25_finalizer() { finalize() }
}

evals! {
    //@@ of: predictor::Predictor::{new,start_new_byte,predict,update}
    //@ bound: generated inputs of up to 1000 bytes
    //@ rule: generated from the seed (structured text, and bits chosen with or against the prediction)
    fn c25_lockstep() {
        let cases = if eval::thorough() { 6000u64 } else { 1200 };
        eval::par(cases, |i| {
            let mut r = eval::Rng(i ^ eval::seed() << 32);
            let n = 1 + r.below(if i % 5 == 0 { 1000 } else { 120 }) as usize;
            let x = structured(i, n);
            let steer = [Steer::Data, Steer::Likely, Steer::Unlikely, Steer::Mixed][i as usize % 4];
            lockstep(&x, steer, i)
        })
    }

    //@ bound: generated inputs of 30000 bytes
    //@ rule: generated from the seed: distances over 10000 bytes, runs over the occurrence cap, contexts of the greatest order, all four ways of choosing bits
    fn c25_long_inputs() {
        let cases = if eval::thorough() { 600u64 } else { 64 };
        eval::par(cases, |i| {
            let mut r = eval::Rng(i ^ eval::seed() << 32 ^ 5);
            let n = 30_000;
            let head = structured(i ^ 1, 300);
            let mut x = head.clone();
            match i % 3 {
                0 => while x.len() < 11_000 { x.push(r.next() as u8); },
                1 => { let l = 1_500 + r.below(12_000); x.extend((0..l).map(|_| 7u8)); }
                _ => { let l = 9_000 + r.below(2_000); x.extend((0..l).map(|j| (j % 13) as u8)); }
            }
            x.extend_from_slice(&head);
            x.extend(structured(i ^ 2, 3_000));
            let l = x.len();
            x.extend_from_within(..l.min(n - l));
            x.extend(structured(i ^ 3, n - x.len()));
            x.truncate(n);
            let steer = [Steer::Data, Steer::Mixed, Steer::Likely, Steer::Unlikely][(i / 3) as usize % 4];
            lockstep(&x, steer, i)
        })
    }

    //@ bound: one input per byte value and length to 40, all pairs of values in a fixed pattern
    //@ rule: the empty input, every run of one byte value (lengths 1 to 40 by turns), and a fixed pattern for pairs of byte values
    fn c25_tiny_inputs() {
        eval::par(256 + 256, |i| {
            let x: Vec<u8> = if i < 256 { vec![i as u8; (i % 41) as usize] }
                else { let (a, b) = (i as u8, (i as u8).wrapping_mul(91) ^ 5); vec![a, b, a, a, b, b, a, b, a, a] };
            lockstep(&x, Steer::Data, i)
        })
    }

    //@ bound: pairs of generated inputs of up to 600 bytes; 24 cases with tables built anew
    //@ rule: generated from the seed; two predictors by turns on one thread against the same predictors alone
    fn c25_interleaved() {
        let cases = if eval::thorough() { 3000u64 } else { 300 };
        eval::par(cases, |i| {
            let mut r = eval::Rng(i ^ eval::seed() << 32 ^ 77);
            let x = structured(i ^ 0x1000, 1 + r.below(600) as usize);
            let y = structured(i ^ 0x2000, 1 + r.below(600) as usize);
            let run = || if i < 24 {
                let fresh = LookUpTables::new();
                interleaved(&x, &y, &fresh, i)?;
                let (_, a) = drive(&mut Predictor::new(&fresh), &x, Steer::Data, 0)?;
                let (_, b) = drive(&mut Predictor::new(luts()), &x, Steer::Data, 0)?;
                ensure!(a == b, "{}: probabilities depend on which tables were built", shown(&x));
                Ok(())
            } else { interleaved(&x, &y, luts(), i) };
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)) {
                Ok(r) => r.map_err(|e| format!("case {}: {}", i, e)),
                Err(e) => Err(format!("case {}: {} and {}: panicked: {}", i, shown(&x), shown(&y), eval::message(&e))),
            }
        })
    }

    //@ bound: inputs of 10.05 million bytes (the predictor's window is 10 million)
    //@ thorough
    //@ timeout: 3000
    //@ rule: inputs of the two kinds by which the window can slide: text of few symbols and a long run that leaves the window
    fn c25_window_slides() {
        eval::par(2, |i| {
            let mut x = Vec::new();
            if i == 0 { x.extend(std::iter::repeat(65u8).take(10_040_000)); }
            else { let mut k = 0; while x.len() < 10_040_000 { k += 1; x.extend(structured(k, 5000)); } }
            x.extend(structured(99, 10_000));
            let luts = luts();
            let (_, a) = drive(&mut Predictor::new(luts), &x, Steer::Data, i)?;
            let (_, b) = drive(&mut Predictor::new(luts), &x, Steer::Data, i)?;
            ensure!(a == b, "predictors disagree");
            Ok(())
        })
    }
}
