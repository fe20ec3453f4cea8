//! C04: bit costs.
use crate::nd::*;
use crate::common::*;
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::lut::log2::{Log2Lut, one_plus_log2_restricted};

const N: usize = 1 << 11;

/// A table that satisfies the contract of `Log2Lut` at the index in question:
/// the looked-up logarithm lies in [0, 2048).
fn lut_with(idx: usize, v: u8) -> Log2Lut {
    let mut t = [0u8; N];
    t[idx] = v;
    Log2Lut::verif_from_table(t)
}

harnesses! {
    //@@ of: fixed_point::FixU32::log2, lut::log2::Log2Lut::log2_restricted
    //@ thorough
    fn c04_log2_u32() {
        let raw: u32 = any();
        assume(raw != 0);
        let lz = raw.leading_zeros();
        let top = ((raw << lz) >> 20) as usize; // 12 bits, leading one
        let idx = top - N;
        let v: u8 = any();
        assume(v as usize + idx < N);
        let lut = lut_with(idx, v);
        reach!();
        let r = frac(raw).log2(&lut);
        // log2 of raw / 2^31, floor of the exponent plus the table's fraction
        let e = (31 - lz as i32) - 31;
        assert!(r.raw() == (e << 11) + idx as i32 + v as i32, "log2: exponent and mantissa");
        let p = NoFractU32::new_unchecked(raw).log2(&lut);
        assert!(p.raw() == ((31 - lz as i32) << 11) + idx as i32 + v as i32,
                "log2: integer format");
    }
    //@@ of: fixed_point::FixU64::log2, lut::log2::Log2Lut::log2_restricted
    #[kani::solver(kissat)]
    fn c04_log2_u64() {
        let raw: u64 = any();
        assume(raw != 0);
        let lz = raw.leading_zeros();
        let top = ((raw << lz) >> 52) as usize;
        let idx = top - N;
        let v: u8 = any();
        assume(v as usize + idx < N);
        let lut = Log2Lut::verif_from_table([v; N]); // one lookup is made
        reach!();
        let r = FractOnlyU64::new_unchecked(raw).log2(&lut);
        let e = (63 - lz as i32) - 63;
        assert!(r.raw() == (e << 11) + idx as i32 + v as i32, "log2: exponent and mantissa");
    }
    #[kani::should_panic]
    fn c04_log2_rejects_zero() {
        let k: bool = any();
        let lut = lut_with(0, 0);
        if k { rejects(|| frac(0).log2(&lut)); }
        else { rejects(|| FractOnlyU64::new_unchecked(0).log2(&lut)); }
    }
    //@@ of: coding::FinalProbability::estimate_cost
    //@ thorough
    fn c04_cost_symmetry() {
        // for every table: symmetric, and the negated logarithm
        let raw: u32 = any_in(1, (1 << 23) - 1);
        let lz = raw.leading_zeros();
        let idx = ((raw << lz) >> 20) as usize - N;
        let v: u8 = any();
        assume(v as usize + idx < N);
        let lut = lut_with(idx, v);
        reach!();
        let p = FinalProbability::new(raw, 23);
        let q = FinalProbability::new((1 << 23) - raw, 23);
        let c0 = p.estimate_cost(Bit::Zero, &lut).raw();
        assert!(c0 == q.estimate_cost(Bit::One, &lut).raw(), "cost: symmetric");
        assert!(c0 == -p.log2(&lut).raw(), "cost: minus logarithm");
        assert!(c0 > 0 && c0 <= 23 << 11, "cost: positive");
    }
}

evals! {
    fn c04_table() {
        // the constructed table, every entry
        let lut = Log2Lut::new();
        let mut prev = 0;
        for i in 0..N as u32 {
            let r = lut.log2_restricted(i + N as u32);
            let e = ((i as f64 + N as f64) / N as f64).log2() * N as f64;
            ensure!((r as f64 - e).abs() <= 0.500001, "log2_restricted({}) = {}, exact {}", i + N as u32, r, e);
            ensure!(r < N as u32 && r >= prev, "log2_restricted not monotone in [0, 1) at {}", i);
            prev = r;
        }
        Ok(eval::Report { evaluations: N as u64, distinct: N as u64, samples: vec![
            format!("log2_restricted(4095) = {}", lut.log2_restricted(4095))] })
    }
    //@ of: fixed_point::FixU32::log2
    fn c04_every_log2() {
        // every non-zero 32-bit mantissa with the constructed table
        let lut = Log2Lut::new();
        let table: Vec<i32> = (0..N as u32).map(|i|
            lut.log2_restricted(i + N as u32) as i32).collect();
        eval::par(1 << 16, |hi| {
            for lo in 0..1u32 << 16 {
                let raw = (hi as u32) << 16 | lo;
                if raw == 0 { continue }
                let n = 31 - raw.leading_zeros() as i32;
                let m = ((raw as u64) << 11 >> n) as usize - N;
                let e = ((n - 31) << 11) + table[m];
                let r = frac(raw).log2(&lut).raw();
                ensure!(r == e, "log2 of raw {}: {} instead of {}", raw, r, e);
            }
            Ok(())
        }).map(|mut r| { r.evaluations = (1 << 32) - 1; r.distinct = (1 << 32) - 1; r })
    }
    //@ of: coding::FinalProbability::estimate_cost
    fn c04_costs() {
        // every admissible probability, both bits
        let lut = Log2Lut::new();
        eval::par((1 << 23) - 1, |i| {
            let raw = i as u32 + 1;
            let p = FinalProbability::new(raw, 23);
            let c0 = p.estimate_cost(Bit::Zero, &lut).raw();
            let c1 = p.estimate_cost(Bit::One, &lut).raw();
            let q = FinalProbability::new((1 << 23) - raw, 23);
            ensure!(c0 >= 0 && c1 >= 0, "negative cost at probability raw {}", raw);
            ensure!(c0 > 0 && c1 > 0, "cost not positive at probability raw {}", raw);
            ensure!(q.estimate_cost(Bit::One, &lut).raw() == c0
                && q.estimate_cost(Bit::Zero, &lut).raw() == c1, "not symmetric at {}", raw);
            if raw > 1 {
                let o = FinalProbability::new(raw - 1, 23);
                ensure!(o.estimate_cost(Bit::Zero, &lut).raw() >= c0
                    && o.estimate_cost(Bit::One, &lut).raw() <= c1,
                    "not monotone at probability raw {}", raw);
            }
            // truncated index (at most log2(1 + 1/2048) too little) plus the
            // table's rounding
            let exact = -(raw as f64 / (1u32 << 23) as f64).log2() * 2048.0;
            let d = c0 as f64 - exact;
            ensure!(d >= -0.51 && d <= 1.96, "cost {} of probability raw {} is off by {}", c0, raw, d);
            Ok(())
        }).map(|r| r.sample(format!("cost of bit 0 at raw 1: {}",
            FinalProbability::new(1, 23).estimate_cost(Bit::Zero, &lut).raw())))
    }
}
