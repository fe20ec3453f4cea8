//! C08: adaptive probability maps.
use crate::nd::*;
use crate::common::*;
use demixer::bit::Bit;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::lut::apm::ApmWeightingLut;
use demixer::mixing::apm::AdaptiveProbabilityMap;

const MAX: u32 = ONE31 - 1;

/// Contract of `fix_u32::mul` for two fractions (C05), as an uninterpreted
/// function: equal arguments give equal results, multiplying by at most one
/// does not enlarge, by one it does nothing.
#[cfg(kani)]
static mut MULS: [(u32, u32, u32); 3] = [(0, 0, 0); 3];
#[cfg(kani)]
static mut MULS_N: usize = 0;
#[cfg(kani)]
pub fn mul_contract<A: FixU32, B: FixU32, R: FixU32>(a: &A, b: &B) -> R {
    let d = A::FRACTIONAL_BITS as i32 + B::FRACTIONAL_BITS as i32 - R::FRACTIONAL_BITS as i32;
    let (x, y) = (a.raw(), b.raw());
    assert!(d == 31 && x <= ONE31 && y <= ONE31, "precondition: fractions of at most one");
    unsafe {
        let mut i = 0;
        while i < MULS_N {
            let (p, q, r) = MULS[i];
            if p == x && q == y || p == y && q == x { return R::new(r, R::FRACTIONAL_BITS); }
            i += 1;
        }
        let r: u32 = any();
        if x == ONE31 { assume(r == y) } else if y == ONE31 { assume(r == x) } else { assume(r <= x && r <= y) }
        if MULS_N < 3 { MULS[MULS_N] = (x, y, r); MULS_N += 1; }
        R::new(r, R::FRACTIONAL_BITS)
    }
}

fn stops(bits: u8) -> usize { (24usize << bits) + 1 }

/// One interpolation, whatever the entries and the weighting table.
fn refine(bits: u8) {
    let n = stops(bits);
    let lut_stops: Vec<FractOnlyU32> = any_vec(n);
    let shifts: Vec<u8> = any_vec(n - 1);
    let extra: Vec<FractOnlyU32> = any_vec(n - 1);
    // log-odds within the limit; the end points belong to the outer intervals
    let x: i32 = any_in(-ST_MAX, ST_MAX);
    let shown = if x == -ST_MAX { x + 1 } else if x == ST_MAX { x - 1 } else { x };
    let near = ((shown >> (21 - bits)) + (n as i32) / 2) as usize;
    let sq: u32 = any_in(1, MAX);
    let (first, last) = (lut_stops[0].raw(), lut_stops[n - 1].raw());
    assume(0 < first && first < last && last <= MAX);
    let clipped = if sq > last { last } else if sq < first { first } else { sq };
    // the probability lies in the interval of the log-odds or, by rounding,
    // in the one before
    let below = clipped < lut_stops[near].raw();
    assume(!below || near > 0);
    let i = if below { near - 1 } else { near };
    let (lo, hi) = (lut_stops[i].raw(), lut_stops[i + 1].raw());
    assume(lo <= clipped && clipped <= hi);
    // the weighting table scales the interval to at most one (C27)
    let s = shifts[i];
    assume(s < 32 && ((clipped - lo) as u64) << s <= MAX as u64);
    let part = frac((clipped - lo) << s);
    assume(extra[i].raw() <= MAX);
    let more: FractOnlyU32 = fix_u32::mul(&part, &extra[i]);
    assume(part.raw() as u64 + more.raw() as u64 <= MAX as u64);
    let right = part.raw() + more.raw();
    let left = ONE31 - right;
    let context: usize = any_in(0, 1);
    let mappings: Vec<FractOnlyU32> = any_vec(2 * n);
    let (a, b) = (mappings[context * n + i], mappings[context * n + i + 1]);
    assume(1 <= a.raw() && a.raw() <= MAX && 1 <= b.raw() && b.raw() <= MAX);
    let k: usize = any_in(0, 2 * n - 1);
    let before = mappings[k].raw();
    let lut = ApmWeightingLut::verif_from_parts(lut_stops, shifts, extra, bits);
    let mut apm = AdaptiveProbabilityMap::verif_from_parts(mappings, bits, 2, -1, frac(any()));
    let pa: FractOnlyU32 = fix_u32::mul(&a, &frac(left));
    let pb: FractOnlyU32 = fix_u32::mul(&b, &frac(right));
    let sum = pa.raw() as u64 + pb.raw() as u64;
    assume(1 <= sum && sum <= ONE31 as u64); // lemma on the rounded products
    reach!();
    reach!(below, "interval before");
    reach!(right == 0, "on a stop");
    let r = apm.refine(context, frac(sq), st(x), &lut).raw();
    assert!(1 <= r && r <= MAX, "refine: strictly between 0 and 1");
    assert!(r as u64 == sum.min(MAX as u64), "refine: weighted mean of the two neighbours");
    assert!(apm.verif_saved() == (i as i32, frac(left)), "refine: remembers the neighbours used");
    assert!(apm.verif_mappings()[k].raw() == before, "refine: changes no entry");
}

fn update(bits: u8) {
    let n = stops(bits);
    let mappings: Vec<FractOnlyU32> = any_vec(2 * n);
    let i: usize = any_in(0, n - 2);
    let context: usize = any_in(0, 1);
    let weight: u32 = any_in(1, ONE31);
    let fixed: bool = any();
    let rate: u8 = any_in(1, 29);
    let bit = any_bit();
    let j = context * n + i;
    let (a, b) = (mappings[j].raw(), mappings[j + 1].raw());
    assume(1 <= a && a <= MAX && 1 <= b && b <= MAX);
    let k: usize = any_in(0, 2 * n - 1);
    let before = mappings[k].raw();
    let left = if fixed { ONE31 / 2 } else { weight };
    let error = |e: u32| if bit.is_0() { ONE31 - e } else { e };
    let wanted = |e: u32, w: u32| -> u32 {
        let c: FractOnlyU32 = fix_u32::mul(&frac(w), &frac(error(e) >> rate));
        if bit.is_0() { e + c.raw() } else { e - c.raw() }
    };
    let (wa, wb) = (wanted(a, left), wanted(b, ONE31 - left));
    let mut apm = AdaptiveProbabilityMap::verif_from_parts(mappings, bits, 2, i as i32, frac(weight));
    reach!();
    apm.update_predictions(context, bit, rate, fixed);
    let after = apm.verif_mappings()[k].raw();
    if k == j || k == j + 1 {
        assert!(1 <= after && after <= MAX, "update: entries strictly between 0 and 1");
        assert!(if bit.is_0() { after >= before } else { after <= before }, "update: towards the coded bit");
        assert!(after == if k == j { wa } else { wb }, "update: by the weighted error over the rate");
    } else {
        assert!(after == before, "update: other entries stay");
    }
    assert!(apm.verif_saved().0 == -1, "update: ready for the next refinement");
}

fn any_apm(saved: i32) -> AdaptiveProbabilityMap {
    let mut v = vec![frac(5); 50];
    v[0] = frac(any_in(1, MAX));
    AdaptiveProbabilityMap::verif_from_parts(v, 0, 2, saved, frac(any_in(1, ONE31)))
}

#[cfg(not(kani))]
mod tables {
    use super::*;
    use demixer::lut::LookUpTables;
    use std::cell::RefCell;
    use std::mem::ManuallyDrop;
    use std::sync::OnceLock;
    pub fn luts() -> &'static LookUpTables {
        static L: OnceLock<LookUpTables> = OnceLock::new();
        L.get_or_init(LookUpTables::new)
    }
    thread_local! { static ENTRIES: RefCell<(u64, Vec<u32>)> = RefCell::new((0, vec![0; 97])); }

    /// The refinement of one input on entries that change every `every` calls
    /// (`None`: the initial ones): (left index, left weight, result, entries).
    pub fn one(bits: u8, sq: FractOnlyU32, x: StretchedProbD, seed: u64) -> (usize, u32, u32, u32, u32) {
        ENTRIES.with(|e| {
            let mut e = e.borrow_mut();
            if e.0 != seed {
                e.0 = seed;
                let mut r = eval::Rng(seed);
                for v in e.1.iter_mut() {
                    *v = match r.below(4) { 0 => MAX - r.below(2) as u32, 1 => 1 + r.below(2) as u32, _ => 1 + r.below(MAX as u64) as u32 };
                }
            }
            let n = stops(bits);
            let v = ManuallyDrop::new(unsafe { Vec::from_raw_parts(e.1.as_mut_ptr() as *mut FractOnlyU32, n, n) });
            let mut apm = ManuallyDrop::new(AdaptiveProbabilityMap::verif_from_parts(
                ManuallyDrop::into_inner(v), bits, 1, -1, FractOnlyU32::ZERO));
            let r = apm.refine(0, sq, x, luts().apm_lut(bits)).raw();
            let (i, w) = apm.verif_saved();
            let i = i as usize;
            (i, w.raw(), r, e.1[i], e.1[i + 1])
        })
    }

    pub fn check(bits: u8, sq: FractOnlyU32, x: StretchedProbD, seed: u64) -> Result<(), String> {
        let s = luts().apm_lut(bits).squashed_interval_stops();
        let (i, w, r, a, b) = one(bits, sq, x, seed);
        let c = sq.raw().min(s[s.len() - 1].raw()).max(s[0].raw());
        ensure!(i + 1 < s.len() && s[i].raw() <= c && c <= s[i + 1].raw(),
            "bits {} probability {}: interval {}", bits, sq.raw(), i);
        let (lo, hi) = (s[i].raw() as f64, s[i + 1].raw() as f64);
        let t = (c as f64 - lo) / (hi - lo);
        let d = (1.0 - t) - w as f64 / ONE31 as f64;
        ensure!(d.abs() <= tolerance(bits), "bits {} probability {}: weight {} off by {}", bits, sq.raw(), w, d);
        ensure!(0 < r && r <= MAX, "bits {} probability {}: refined to {}", bits, sq.raw(), r);
        ensure!(r as u64 + 1 >= a.min(b) as u64 && r <= a.max(b).saturating_add(1),
            "bits {} probability {}: {} is not between {} and {}", bits, sq.raw(), r, a, b);
        let e = a as f64 + (b as f64 - a as f64) * (1.0 - w as f64 / ONE31 as f64);
        ensure!((e - r as f64).abs() <= 1.5, "bits {} probability {}: {} instead of {}", bits, sq.raw(), r, e);
        Ok(())
    }
    pub fn all_stretched(first: u64, many: u64, stride: u32) -> eval::Outcome {
        luts();
        let seed = eval::seed() << 32;
        eval::par(many << 14, |c| {
            let (bits, lo) = ((first + (c >> 14)) as u8, ((c & 0x3fff) as u32) << 17);
            let skip = (stride - lo % stride) % stride;
            for p in (lo + skip..lo + (1 << 17)).step_by(stride as usize) {
                if p == 0 || p > MAX { continue }
                let sq = frac(p);
                check(bits, sq, luts().stretch_lut().stretch(sq), seed + (c << 8) + (p >> 10 & 127) as u64)?;
            }
            Ok(())
        }).map(|_| eval::Report { evaluations: many * (MAX / stride) as u64, distinct: many * (MAX / stride) as u64, samples: vec![] })
    }
    pub fn tolerance(_: u8) -> f64 { 2e-8 }
}

harnesses! {
    //@@ of: mixing::apm::AdaptiveProbabilityMap::refine
    #[kani::unwind(8)]
    #[kani::stub(demixer::fixed_point::fix_u32::mul, mul_contract)]
    fn c08_refine_0() { refine(0) }
    #[kani::unwind(8)]
    #[kani::stub(demixer::fixed_point::fix_u32::mul, mul_contract)]
    fn c08_refine_1() { refine(1) }
    //@ thorough
    #[kani::unwind(8)]
    #[kani::stub(demixer::fixed_point::fix_u32::mul, mul_contract)]
    fn c08_refine_2() { refine(2) }
    #[kani::unwind(52)]
    #[kani::should_panic]
    fn c08_refine_twice() {
        let mut a = any_apm(any_in(0, 23));
        let lut = ApmWeightingLut::verif_from_parts(any_vec(25), any_vec(24), any_vec(24), 0);
        rejects(|| a.refine(0, frac(any_in(1, MAX)), st(any_in(-ST_MAX, ST_MAX)), &lut));
    }
    #[kani::unwind(52)]
    #[kani::should_panic]
    fn c08_refine_wrong_table() {
        let mut a = any_apm(-1);
        let bits: u8 = any_in(1, 2);
        let lut = ApmWeightingLut::verif_from_parts(any_vec(25), any_vec(24), any_vec(24), bits);
        rejects(|| a.refine(0, frac(any_in(1, MAX)), st(any_in(-ST_MAX, ST_MAX)), &lut));
    }
    //@@ of: mixing::apm::AdaptiveProbabilityMap::{update_predictions,update_single_entry}
    #[kani::unwind(8)]
    #[kani::stub(demixer::fixed_point::fix_u32::mul, mul_contract)]
    fn c08_update_0() { update(0) }
    #[kani::unwind(8)]
    #[kani::stub(demixer::fixed_point::fix_u32::mul, mul_contract)]
    fn c08_update_1() { update(1) }
    //@ thorough
    #[kani::unwind(8)]
    #[kani::stub(demixer::fixed_point::fix_u32::mul, mul_contract)]
    fn c08_update_2() { update(2) }
    #[kani::unwind(52)]
    #[kani::should_panic]
    fn c08_update_without_refine() {
        let mut a = any_apm(-1);
        rejects(|| a.update_predictions(any_in(0, 1), any_bit(), any_in(1, 29), any()));
    }
    #[kani::unwind(52)]
    #[kani::should_panic]
    fn c08_update_rejects() {
        let mut a = any_apm(any_in(0, 23));
        let (c, r): (usize, u8) = (any_in(0, 5), any());
        assume(c > 1 || r == 0 || r >= 30);
        rejects(|| a.update_predictions(c, any_bit(), r, any()));
    }
}

evals! {
    //@@ of: mixing::apm::AdaptiveProbabilityMap::refine
    //@ of: mixing::apm::AdaptiveProbabilityMap::refine, lut::apm::ApmWeightingLut::{new,extra_factor}, lut::stretch::StretchLut::stretch
    //@ rule: every probability 1 .. 2^31-1 with its stretched value, for 0 index bits (those the compressor uses); entries random and extreme
    fn c08_refine_stretched() { tables::all_stretched(0, 1, 1) }
    //@ of: mixing::apm::AdaptiveProbabilityMap::refine, lut::apm::ApmWeightingLut::{new,extra_factor}, lut::stretch::StretchLut::stretch
    //@ bound: every 13th probability
    //@ rule: as c08_refine_stretched for 1 and 2 index bits
    fn c08_refine_stretched_sampled() { tables::all_stretched(1, 2, 13) }
    //@ of: mixing::apm::AdaptiveProbabilityMap::refine, lut::apm::ApmWeightingLut::{new,extra_factor}, lut::stretch::StretchLut::stretch
    //@ thorough
    //@ rule: as c08_refine_stretched for 1 and 2 index bits
    fn c08_refine_stretched_12() { tables::all_stretched(1, 2, 1) }
    //@ of: mixing::apm::AdaptiveProbabilityMap::refine, lut::apm::ApmWeightingLut::{new,extra_factor}, lut::squash::SquashLut::squash
    //@ rule: every log-odds value -12 .. 12 in units of 2^-21 with its squashed value, for 0, 1 and 2 index bits
    fn c08_refine_squashed() {
        use tables::*;
        luts();
        let seed = eval::seed() << 33;
        eval::par(3 * 769, |c| {
            let (bits, lo) = ((c / 769) as u8, -ST_MAX + ((c % 769) as i32) * (1 << 16));
            for x in lo..lo + (1 << 16) {
                if x > ST_MAX { continue }
                check(bits, luts().squash_lut().squash(st(x)), st(x), seed + (c << 8) + (x >> 10 & 63) as u64)?;
            }
            Ok(())
        }).map(|_| eval::Report { evaluations: 3 * (2 * ST_MAX as u64 + 1), distinct: 3 * (2 * ST_MAX as u64 + 1), samples: vec![] })
    }
    //@ of: mixing::apm::AdaptiveProbabilityMap::new
    //@ bound: up to 6 contexts, and 256
    //@ rule: every entry of every context for 0, 1 and 2 index bits is the squashed stop
    fn c08_new() {
        use tables::*;
        luts();
        eval::par(3 * 8, |c| {
            let bits = (c % 3) as u8;
            let contexts = if c / 3 == 7 { 256 } else { (c / 3) as usize };
            let a = AdaptiveProbabilityMap::new(contexts, bits, luts().squash_lut());
            let n = stops(bits);
            ensure!(a.verif_mappings().len() == contexts * n, "{} entries for {} contexts", a.verif_mappings().len(), contexts);
            ensure!(a.verif_saved().0 == -1, "a new map is not ready for a refinement");
            for (k, v) in a.verif_mappings().iter().enumerate() {
                let x = ((k % n) as i32 - n as i32 / 2) << (21 - bits);
                ensure!(*v == luts().squash_lut().squash(st(x)), "bits {} entry {} is {}", bits, k, v.raw());
            }
            Ok(())
        })
    }
    //@ of: mixing::apm::AdaptiveProbabilityMap::{new,refine,update_predictions}
    //@ bound: 20000 random histories of 3000 bits over 3 contexts
    //@ rule: random inputs, bits and rates; every entry recomputed independently after every update
    fn c08_histories() {
        use tables::*;
        luts();
        let seed = eval::seed();
        eval::par(20000, |c| {
            let mut r = eval::Rng(seed.wrapping_mul(0x7a3d).wrapping_add(c));
            let bits = (c % 3) as u8;
            let n = stops(bits);
            let mut a = AdaptiveProbabilityMap::new(3, bits, luts().squash_lut());
            let mut m: Vec<u32> = a.verif_mappings().iter().map(|x| x.raw()).collect();
            let (rate0, bias) = (1 + r.below(8) as u8, 1 + r.below(9));
            for step in 0..3000 {
                let ctx = r.below(3) as usize;
                let (sq, x) = if r.below(2) == 0 {
                    let x = st(r.below(2 * ST_MAX as u64 + 1) as i32 - ST_MAX);
                    (luts().squash_lut().squash(x), x)
                } else {
                    let p = frac(1 + r.below(MAX as u64) as u32 >> r.below(20));
                    let p = if p.raw() == 0 { frac(1) } else { p };
                    (p, luts().stretch_lut().stretch(p))
                };
                let v = a.refine(ctx, sq, x, luts().apm_lut(bits)).raw();
                let (i, w) = a.verif_saved();
                let j = ctx * n + i as usize;
                ensure!(v as u64 + 1 >= m[j].min(m[j + 1]) as u64 && v <= m[j].max(m[j + 1]).saturating_add(1) && 0 < v && v <= MAX,
                    "step {}: {} is not between {} and {}", step, v, m[j], m[j + 1]);
                let bit: Bit = (r.below(10) < bias).into();
                let (rate, fixed) = (rate0, r.below(3) == 0);
                let wl = if fixed { ONE31 / 2 } else { w.raw() } as u64;
                for (e, w) in [(j, wl), (j + 1, ONE31 as u64 - wl)] {
                    let err = if bit.is_0() { ONE31 - m[e] } else { m[e] };
                    let d = ((w * (err >> rate) as u64 + (1 << 30)) >> 31) as u32;
                    if bit.is_0() { m[e] += d } else { m[e] -= d }
                }
                a.update_predictions(ctx, bit, rate, fixed);
                for (k, e) in a.verif_mappings().iter().enumerate() {
                    ensure!(e.raw() == m[k] && 0 < m[k] && m[k] <= MAX, "step {}: entry {} is {} instead of {}", step, k, e.raw(), m[k]);
                }
            }
            Ok(())
        })
    }
}
