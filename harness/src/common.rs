//! Shared pieces of the specifications.
use crate::nd::*;
use demixer::fixed_point::FixedPoint;
use demixer::fixed_point::types::*;

/// round(x / 2^s), halves up.
pub fn rnd(x: u64, s: u32) -> u64 { (x >> s) + ((x >> (s - 1)) & 1) }

pub fn frac(raw: u32) -> FractOnlyU32 { FractOnlyU32::new_unchecked(raw) }
pub fn st(raw: i32) -> StretchedProbD { StretchedProbD::new_unchecked(raw) }
pub const ONE31: u32 = 1 << 31;
pub const ST_MAX: i32 = 12 << 21;

/// A rate table with an arbitrary rate (0 .. 1) for the count in question.
pub fn rates_with(count: usize, rate: u32) -> demixer::lut::estimator::DeceleratingEstimatorRates {
    let mut t = [frac(0); 1024];
    t[count] = frac(rate);
    demixer::lut::estimator::DeceleratingEstimatorRates::verif_from_table(t)
}

/// Look-up tables of which only the logarithm is used.
pub fn luts_with(log2: demixer::lut::log2::Log2Lut) -> demixer::lut::LookUpTables {
    use demixer::estimators::cost::CostTracker;
    use demixer::estimators::decelerating::DeceleratingEstimator;
    use demixer::lut::apm::ApmWeightingLut;
    use demixer::lut::cost::CostTrackersLut;
    use demixer::lut::estimator::*;
    use demixer::lut::squash::SquashLut;
    use demixer::lut::stretch::StretchLut;
    demixer::lut::LookUpTables::verif_from_parts(
        log2, rates_with(0, 0),
        DeceleratingEstimatorCache::verif_from_table([DeceleratingEstimator::INVALID; 1024]),
        DeceleratingEstimatorPredictions::verif_from_table([(frac(0), st(0)); 1024]),
        CostTrackersLut::verif_from_table([CostTracker::INITIAL; 1024]),
        StretchLut::verif_from_table([[st(0); 512]; 8]),
        SquashLut::verif_from_table([frac(0); SquashLut::VERIF_ARRAY_SIZE]),
        [ApmWeightingLut::verif_from_parts(vec![], vec![], vec![], 0),
         ApmWeightingLut::verif_from_parts(vec![], vec![], vec![], 1),
         ApmWeightingLut::verif_from_parts(vec![], vec![], vec![], 2)])
}

/// A vector of arbitrary contents (`T` plain data).  Under Kani the elements
/// are unwritten memory, which CBMC treats as arbitrary.
#[cfg(kani)]
pub fn any_vec<T>(n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    unsafe { v.set_len(n); }
    v
}
#[cfg(not(kani))]
pub fn any_vec<T>(n: usize) -> Vec<T> {
    let mut v: Vec<T> = Vec::with_capacity(n);
    let bytes = n * std::mem::size_of::<T>();
    unsafe {
        let p = v.as_mut_ptr() as *mut u8;
        // small values: sums over them stay representable
        for i in 0..bytes { *p.add(i) = if i % 8 < 5 { any::<u8>() } else { 0 }; }
        v.set_len(n);
    }
    v
}

/// Look-up tables of arbitrary contents (under Kani unwritten memory, which
/// CBMC treats as arbitrary; natively the real tables).
#[cfg(kani)]
pub fn some_luts() -> &'static demixer::lut::LookUpTables {
    let b: Box<std::mem::MaybeUninit<demixer::lut::LookUpTables>> = Box::new_uninit();
    unsafe { &*(Box::into_raw(b) as *const demixer::lut::LookUpTables) }
}
#[cfg(not(kani))]
pub fn some_luts() -> &'static demixer::lut::LookUpTables {
    static L: std::sync::OnceLock<demixer::lut::LookUpTables> = std::sync::OnceLock::new();
    L.get_or_init(demixer::lut::LookUpTables::new)
}
