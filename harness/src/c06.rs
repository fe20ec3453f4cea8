//! C06: stretch and squash.
use crate::nd::*;
use crate::common::*;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::lut::squash::SquashLut;
use demixer::lut::stretch::StretchLut;

const LIMIT: i32 = StretchedProbD::ABSOLUTE_LIMIT << 21;

harnesses! {
    //@@ of: lut::stretch::StretchLut::stretch
    fn c06_stretch_half() {
        let lut = StretchLut::verif_from_table([[st(any_in(-LIMIT, 0)); 512]; 8]);
        reach!();
        assert!(lut.stretch(frac(ONE31 / 2)).raw() == 0, "stretch: one half");
    }
    #[kani::should_panic]
    fn c06_stretch_zero() {
        let lut = StretchLut::verif_from_table([[st(any_in(-LIMIT, 0)); 512]; 8]);
        rejects(|| lut.stretch(frac(0)));
    }
    //@@ of: lut::squash::SquashLut::squash
    #[kani::should_panic]
    fn c06_squash_out_of_range() {
        let x: i32 = any();
        assume(x < -LIMIT || x > LIMIT + (1 << 14) - 1);
        let lut = SquashLut::verif_from_table([frac(ONE31 / 2); SquashLut::VERIF_ARRAY_SIZE]);
        rejects(|| lut.squash(st(x)));
    }
}

#[cfg(not(kani))]
mod tables {
    use demixer::lut::squash::SquashLut;
    use demixer::lut::stretch::StretchLut;
    use std::sync::OnceLock;
    pub fn stretch() -> &'static StretchLut {
        static T: OnceLock<StretchLut> = OnceLock::new();
        T.get_or_init(|| StretchLut::new(false))
    }
    pub fn squash() -> &'static SquashLut {
        static T: OnceLock<SquashLut> = OnceLock::new();
        T.get_or_init(|| SquashLut::new(stretch(), false))
    }
}

/// Worst interpolation error of stretch at p: piecewise linear, with at least
/// 512 steps per octave above the last level (h^2/8 f'' < 2 units), k equal
/// steps from zero within it.
#[cfg(not(kani))]
fn stretch_tolerance(p: u32) -> f64 {
    let k = (p >> 14) as f64; // steps of the last level
    if p >> 23 == 0 { 0.126 / (k * (k + 1.0)) + 4e-6 } else { 4e-6 }
}

evals! {
    //@ of: lut::stretch::StretchLut::{new,stretch,log2,minimum_accurately_mapped_input}, lut::log2::one_plus_log2_restricted, lut::squash::SquashLut::squash
    //@ rule: every probability 1/2^31 .. 1 - 1/2^31 (in pairs p, 1 - p)
    fn c06_stretch_all() {
        use tables::*;
        let min = StretchLut::minimum_accurately_mapped_input().raw();
        ensure!(min == 1 << 14, "minimum accurately mapped input {}", min);
        let last = stretch().stretch(frac(1)).raw();
        eval::par(1 << 14, |c| {
            let lo = (c as u32) << 16;
            let mut prev = if lo > 1 { stretch().stretch(frac(lo - 1)).raw() } else { -LIMIT };
            for p in lo..lo + (1 << 16) {
                if p == 0 { continue }
                let s = stretch().stretch(frac(p)).raw();
                ensure!(s >= -LIMIT && s <= LIMIT, "stretch({}) = {} beyond the limit", p, s);
                ensure!(s >= prev - 1, "stretch({}) = {} below its left neighbour {}", p, s, prev);
                prev = s;
                let m = stretch().stretch(frac(ONE31 - p)).raw();
                ensure!(m == -s, "stretch(1 - {}) = {} but stretch({}) = {}", p, m, p, s);
                let x = p as f64 / ONE31 as f64;
                let b = squash().squash(st(s)).raw();
                let d = (b as f64 - p as f64).abs();
                if p >= min {
                    let e = ((x / (1.0 - x)).ln() - s as f64 / (1 << 21) as f64).abs();
                    ensure!(e <= stretch_tolerance(p), "stretch({}) = {} is off by {}", p, s, e);
                    ensure!(d <= 2000.0 && d <= 0.0025 * p as f64
                            && (p < 8 * min || d <= 0.00021 * p as f64),
                            "squash(stretch({})) = {}", p, b);
                } else {
                    // beyond the accurately mapped range: the outermost entry
                    ensure!(s == last, "stretch({}) = {} instead of the outermost entry {}", p, s, last);
                    ensure!(b > 0 && b < min + 60, "squash(stretch({})) = {}", p, b);
                }
            }
            Ok(())
        }).and_then(|r| {
            let h = stretch().stretch(frac(ONE31 / 2)).raw();
            ensure!(h == 0 && stretch().stretch(frac(ONE31 / 2 - 1)).raw() <= 0, "stretch(1/2) = {}", h);
            Ok(eval::Report { evaluations: r.evaluations << 17, distinct: (1u64 << 31) - 1, samples: vec![
                format!("stretch(2^-31) = {}, stretch(min) = {}", last, stretch().stretch(frac(min)).raw())] })
        })
    }
    //@ of: lut::squash::SquashLut::{new,find_squashed_prob,squash}, lut::stretch::StretchLut::stretch
    //@ rule: every log-odds value -12 .. 12 in units of 2^-21
    fn c06_squash_all() {
        use tables::*;
        eval::par(769, |c| {
            let lo = -LIMIT + ((c as i32) << 16);
            let mut prev = if lo > -LIMIT { squash().squash(st(lo - 1)).raw() } else { 0 };
            for x in lo..lo + (1 << 16) {
                if x > LIMIT { continue }
                let q = squash().squash(st(x)).raw();
                ensure!(q > 0 && q < ONE31, "squash({}) = {}", x, q);
                ensure!(q + 1 >= prev, "squash({}) = {} below its left neighbour {}", x, q, prev);
                prev = q;
                let n = squash().squash(st(-x)).raw();
                ensure!(n == ONE31 - q, "squash(-{}) = {} but squash({}) = {}", x, n, x, q);
                let xf = x as f64 / (1 << 21) as f64;
                let e = 1.0 / (1.0 + (-xf).exp());
                let err = (e - q as f64 / ONE31 as f64).abs();
                let rel = err / e.min(1.0 - e);
                let a = xf.abs();
                ensure!(err * (ONE31 as f64) < 3300.0 && rel < if a < 10.0 { 0.0031 } else if a < 11.0 { 0.0215 } else { 0.25 },
                        "squash({}) = {} is off by {} of {}", x, q, err, e);
                let s = stretch().stretch(frac(q)).raw();
                let d = (s - x).abs() as f64 / (1 << 21) as f64;
                ensure!(d < if a < 8.0 { 4.3e-5 } else if a < 10.0 { 2e-4 } else if a < 11.0 { 6e-4 } else { 0.218 },
                        "stretch(squash({})) = {}", x, s);
            }
            Ok(())
        }).map(|_| eval::Report { evaluations: 2 * LIMIT as u64 + 1, distinct: 2 * LIMIT as u64 + 1,
            samples: vec![format!("squash(-12) = {}", squash().squash(st(-LIMIT)).raw())] })
    }
}
