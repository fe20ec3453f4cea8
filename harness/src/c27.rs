//! C27: precomputed tables.
use crate::nd::*;
use crate::common::*;
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::lut::LookUpTables;
use demixer::lut::apm::ApmWeightingLut;
use demixer::lut::cost::CostTrackersLut;
use demixer::lut::estimator::*;
use demixer::lut::log2::Log2Lut;

const CAP: u16 = DeceleratingEstimator::MAX_COUNT;
const N: usize = 1024;

/// An estimator state that can be reached.
fn reachable(raw: u32) -> bool { raw >> 10 > 0 && (raw & 1023) <= 1000 }

harnesses! {
    //@@ of: lut::estimator::DeceleratingEstimatorCache::for_new_node
    fn c27_cache_lookup() {
        // every table content, every run length
        let raw: u32 = any();
        assume(reachable(raw));
        let n: u16 = any_in(0, CAP);
        let mut t = [DeceleratingEstimator::verif_from_raw(1 << 31); N];
        t[n as usize] = DeceleratingEstimator::verif_from_raw(raw);
        let c = DeceleratingEstimatorCache::verif_from_table(t);
        reach!();
        assert!(c.for_new_node(Bit::One, n).verif_raw() == raw, "cache: entry of the run length");
        let z = c.for_new_node(Bit::Zero, n).verif_raw();
        assert!(z & 1023 == raw & 1023 && z >> 10 == (1 << 22) - (raw >> 10), "cache: mirrored for a zero bit");
    }
    #[kani::should_panic]
    fn c27_cache_too_long() {
        let n: u16 = any();
        assume(n > CAP);
        let b = any_bit();
        let c = DeceleratingEstimatorCache::verif_from_table([DeceleratingEstimator::verif_from_raw(1 << 31); N]);
        rejects(|| c.for_new_node(b, n));
    }
    //@@ of: lut::estimator::DeceleratingEstimatorPredictions::for_0_bit_run
    fn c27_prediction_lookup() {
        let (p, s): (u32, i32) = (any(), any());
        let n: u16 = any_in(0, CAP);
        let mut t = [(frac(1), st(1)); N];
        t[n as usize] = (frac(p), st(s));
        let d = DeceleratingEstimatorPredictions::verif_from_table(t);
        reach!();
        let r = d.for_0_bit_run(n);
        assert!(r.0.raw() == p && r.1.raw() == s, "predictions: entry of the run length");
    }
    #[kani::should_panic]
    fn c27_prediction_too_long() {
        let n: u16 = any();
        assume(n > CAP);
        let d = DeceleratingEstimatorPredictions::verif_from_table([(frac(1), st(1)); N]);
        rejects(|| d.for_0_bit_run(n));
    }
    //@@ of: lut::cost::CostTrackersLut::for_new_node
    fn c27_cost_lookup() {
        let v: u16 = any();
        let n: u16 = any();
        let k = if (n as usize) < N { n as usize } else { N - 1 };
        let mut t = [CostTracker::new(!v); N];
        t[k] = CostTracker::new(v);
        let c = CostTrackersLut::verif_from_table(t);
        reach!();
        reach!(n as usize >= N, "longer than the table");
        assert!(c.for_new_node(n).raw() == v, "cost trackers: entry of the capped run length");
    }
    //@@ of: lut::estimator::DeceleratingEstimatorRates::index
    fn c27_rate_lookup() {
        let v: u32 = any();
        let n: u16 = any_in(0, 1023);
        let l = rates_with(n as usize, v);
        reach!();
        assert!(l[n].raw() == v, "rates: entry of the count");
    }
}

evals! {
    //@ of: lut::estimator::DeceleratingEstimatorRates::{make,make_default}
    //@ rule: every count 0..1023 for the default table and for every factor, addend up to 12
    fn c27_rates() {
        let d = DeceleratingEstimatorRates::make_default();
        for n in 0..1024u32 {
            ensure!(d[n as u16].raw() == (1u32 << 31) / (n + 2), "default rate for count {} is {}", n, d[n as u16].raw());
        }
        eval::par(13 * 12, |i| {
            let (f, a) = ((i / 12) as u32, (i % 12 + 1) as u32);
            let t = DeceleratingEstimatorRates::make(f, a);
            for n in 0..1024u32 {
                ensure!(t[n as u16].raw() == (1u32 << 31) / (n * f + a), "rate make({}, {}) for count {} is {}", f, a, n, t[n as u16].raw());
            }
            Ok(())
        }).map(|_| eval::Report { evaluations: 157 * 1024, distinct: 157 * 1024, samples: vec!["rate[0] = 1/2".into()] })
    }
    //@ of: lut::estimator::DeceleratingEstimatorCache::{new,for_new_node}, estimators::decelerating::DeceleratingEstimator::{new,update}, lut::LookUpTables::{new,d_estimator_cache,d_estimator_rates}
    //@ rule: every run length 0..1000, both bits, replayed
    fn c27_estimator_cache() {
        let luts = LookUpTables::new();
        let mut off = 0u32;
        for (bit, other) in [(Bit::One, Bit::Zero), (Bit::Zero, Bit::One)] {
            let mut e = DeceleratingEstimator::new();
            for n in 0..=CAP {
                ensure!(e.usage_count() == n, "count {} after {} bits", e.usage_count(), n);
                let mut w = e;
                w.update(bit, luts.d_estimator_rates());
                let c = luts.d_estimator_cache().for_new_node(bit, n);
                ensure!(c.usage_count() == w.usage_count(), "run of {} then {:?}: count {} instead of {}", n, bit.is_1(), c.usage_count(), w.usage_count());
                let d = (c.prediction().raw() as i64 - w.prediction().raw() as i64).abs() as u32 >> 9;
                // replaying is symmetric in the bits up to rounding
                ensure!(if bit.is_1() { d == 0 } else { d <= 1 },
                        "run of {} {}s then a {}: cached prediction {} instead of {}", n, other.to_u32(), bit.to_u32(), c.prediction().raw(), w.prediction().raw());
                if d > off { off = d }
                e.update(other, luts.d_estimator_rates());
            }
        }
        Ok(eval::Report { evaluations: 2002, distinct: 2002, samples: vec![format!("largest difference for zero bits: {} units of 2^-22", off)] })
    }
    //@ of: lut::estimator::DeceleratingEstimatorPredictions::{new,for_0_bit_run}, lut::LookUpTables::direct_predictions
    //@ rule: every run length 0..1000, replayed from one half with count one
    fn c27_predictions() {
        let luts = LookUpTables::new();
        let mut e = DeceleratingEstimator::make(FractOnlyU32::HALF, 1);
        for n in 0..=CAP {
            let (p, s) = luts.direct_predictions().for_0_bit_run(n);
            ensure!(p == e.prediction(), "run of {}: prediction {} instead of {}", n, p.raw(), e.prediction().raw());
            ensure!(s == luts.stretch_lut().stretch(p), "run of {}: stretched {} instead of {}", n, s.raw(), luts.stretch_lut().stretch(p).raw());
            e.update(Bit::Zero, luts.d_estimator_rates());
        }
        Ok(eval::Report { evaluations: 1001, distinct: 1001, samples: vec![] })
    }
    //@ of: lut::cost::CostTrackersLut::{new,for_new_node}, estimators::cost::CostTracker::updated_on_bit, lut::LookUpTables::cost_trackers_lut
    //@ rule: every run length 0..65535, both bits, replayed (runs beyond the table give its last entry)
    fn c27_cost_trackers() {
        let luts = LookUpTables::new();
        for (bit, other) in [(Bit::One, Bit::Zero), (Bit::Zero, Bit::One)] {
            let mut e = DeceleratingEstimator::new();
            let mut c = CostTracker::INITIAL;
            let mut last = 0;
            for n in 0..=u16::MAX {
                let t = luts.cost_trackers_lut().for_new_node(n).raw();
                if n <= 1023 {
                    let w = c.updated_on_bit(e.prediction(), bit, &luts).raw();
                    let d = (t as i32 - w as i32).abs();
                    // mirrored histories differ by rounding of the estimator
                    ensure!(if bit.is_1() { d == 0 } else { d <= 16 },
                            "run of {} {}s then a {}: cost tracker {} instead of {}", n, other.to_u32(), bit.to_u32(), t, w);
                    last = t;
                    c = c.updated_on_bit(e.prediction(), other, &luts);
                    e.update(other, luts.d_estimator_rates());
                } else {
                    ensure!(t == last, "run of {}: cost tracker {} instead of the last entry {}", n, t, last);
                }
            }
        }
        Ok(eval::Report { evaluations: 131072, distinct: 131072, samples: vec![] })
    }
    //@ of: lut::apm::ApmWeightingLut::{new,extra_factor,squashed_interval_stops,shifts_by_interval,extra_factor_by_interval,stretched_fract_index_bits}, lut::LookUpTables::apm_lut
    //@ rule: every interval of the tables with 0..2 (those of the look-up tables) and 3..6 fractional index bits
    fn c27_apm_weights() {
        let luts = LookUpTables::new();
        let mut n = 0;
        for bits in 0..=6u8 {
            let own;
            let t = if bits <= 2 { luts.apm_lut(bits) } else { own = ApmWeightingLut::new(bits, luts.squash_lut()); &own };
            ensure!(t.stretched_fract_index_bits() == bits, "apm_lut({}) has {} fractional bits", bits, t.stretched_fract_index_bits());
            let count = (24usize << bits) + 1;
            let (stops, shifts, extra) = (t.squashed_interval_stops(), t.shifts_by_interval(), t.extra_factor_by_interval());
            ensure!(stops.len() == count && shifts.len() == count - 1 && extra.len() == count - 1, "apm_lut({}): sizes", bits);
            for i in 0..count {
                let x = st((i as i32 - (count / 2) as i32) << (21 - bits));
                ensure!(stops[i] == luts.squash_lut().squash(x), "apm_lut({}): stop {} is {}", bits, i, stops[i].raw());
            }
            for i in 0..count - 1 {
                let len = stops[i + 1].raw() - stops[i].raw();
                if len == 0 && bits > 2 { continue } // beyond the squash table's range
                ensure!(len > 0, "apm_lut({}): empty interval {}", bits, i);
                // the largest power of two that keeps the length below one,
                // and the largest factor that does not exceed one with it
                let s = len << shifts[i];
                ensure!(s >= ONE31 / 2 && s < ONE31, "apm_lut({}): shift {} of interval {}", bits, shifts[i], i);
                let mul = |f: u32| -> u64 { rnd(f as u64 * s as u64, 31) };
                let f = extra[i].raw();
                ensure!(s as u64 + mul(f) <= ONE31 as u64, "apm_lut({}): weights of interval {} exceed one", bits, i);
                ensure!(f >= ONE31 - 2 || s as u64 + mul(f + 1) >= ONE31 as u64,
                        "apm_lut({}): extra factor {} of interval {} is too small", bits, f, i);
                n += 1;
            }
        }
        Ok(eval::Report { evaluations: n, distinct: n, samples: vec![] })
    }
    //@ of: lut::LookUpTables::{new,log2_lut,stretch_lut,squash_lut,d_estimator_rates}
    //@ rule: every entry of each table of LookUpTables::new against a table made on its own
    fn c27_tables() {
        use demixer::lut::squash::SquashLut;
        use demixer::lut::stretch::StretchLut;
        let luts = LookUpTables::new();
        let l = Log2Lut::new();
        ensure!(l.verif_table() == luts.log2_lut().verif_table(), "log2 table differs");
        let s = StretchLut::new(false);
        for i in 0..8 { for j in 0..512 {
            ensure!(s.verif_entry(i, j) == luts.stretch_lut().verif_entry(i, j), "stretch entry {} {}", i, j);
        } }
        let q = SquashLut::new(&s, false);
        ensure!(q.verif_table() == luts.squash_lut().verif_table(), "squash table differs");
        let r = DeceleratingEstimatorRates::make_default();
        for n in 0..1024u16 { ensure!(r[n] == luts.d_estimator_rates()[n], "rate {}", n); }
        Ok(eval::Report { evaluations: 2048 + 4096 + 3073 + 1024, distinct: 2048 + 4096 + 3073 + 1024, samples: vec![] })
    }
}
