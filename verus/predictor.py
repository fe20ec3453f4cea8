"""C25: the predictor (src/predictor: kits, single, chain, post_process, mod).
Every prediction is admissible and no run-time check can fire, for any number
of bits, given the contracts of the parts (tables, estimators, mixers, maps,
indexers, last bytes, history source)."""
D = "src/predictor/"
P1 = r"\((?:[^()]|\((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*\))*\)"

PRELUDE = r'''
use vstd::prelude::*;
verus! {
global size_of usize == 8;

// ---- numbers -------------------------------------------------------------------
pub struct FractOnlyU32(pub u32);
pub struct StretchedProbD(pub i32);
pub struct FinalProbability(pub u32);
impl Copy for FractOnlyU32 {}
impl Clone for FractOnlyU32 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for StretchedProbD {}
impl Clone for StretchedProbD { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for FinalProbability {}
impl Clone for FinalProbability { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// Strictly between 0 and 1 (31 fractional bits).
pub open spec fn admissible(p: FractOnlyU32) -> bool { 0 < p.0 <= 0x7fff_ffff }
pub open spec fn in_limits(x: StretchedProbD) -> bool { -0x180_0000 <= x.0 <= 0x180_0000 }
/// Strictly between 0 and 1 (23 fractional bits).
pub open spec fn codable(p: FinalProbability) -> bool { 0 < p.0 < 0x80_0000 }
impl FractOnlyU32 {
    pub exec const HALF: Self ensures Self::HALF.0 == 0x4000_0000 { FractOnlyU32(0x4000_0000) }
    #[verifier::external_body]
    pub fn raw(&self) -> (r: u32) ensures r == self.0 { unimplemented!() }
    #[verifier::external_body]
    pub fn new(raw: u32, fractional_bits: u8) -> (r: Self) requires fractional_bits == 31, raw <= 0x7fff_ffff ensures r.0 == raw { unimplemented!() }
    /// C03.
    #[verifier::external_body]
    pub fn to_fix_u32(&self) -> (r: FinalProbability) requires admissible(*self) ensures codable(r) { unimplemented!() }
}
impl StretchedProbD {
    pub exec const ZERO: Self ensures Self::ZERO.0 == 0 { StretchedProbD(0) }
    #[verifier::external_body]
    pub fn new(raw: i32, fractional_bits: u8) -> (r: Self) requires fractional_bits == 21, -0x180_0000 <= raw <= 0x180_0000 ensures r.0 == raw { unimplemented!() }
}
pub mod fix_u64 {
    use super::*;
    /// C05.
    #[verifier::external_body]
    pub fn scaled_down(value: u64, shift: u8) -> (r: u64) requires shift == 2 ensures r == (value + 2) / 4 { unimplemented!() }
}
pub enum Bit { Zero, One }
impl Copy for Bit {}
impl Clone for Bit { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Bit {
    #[verifier::external_body]
    pub fn to_u8(&self) -> (r: u8) ensures r == if *self is Zero { 0int } else { 1int } { unimplemented!() }
}

// ---- tables (C06, C08, C27) --------------------------------------------------------
#[verifier::external_body]
pub struct LookUpTables { _p: u8 }
#[verifier::external_body]
pub struct StretchLut { _p: u8 }
#[verifier::external_body]
pub struct SquashLut { _p: u8 }
#[verifier::external_body]
pub struct ApmWeightingLut { _p: u8 }
#[verifier::external_body]
pub struct DeceleratingEstimatorRates { _p: u8 }
#[verifier::external_body]
pub struct DeceleratingEstimatorPredictions { _p: u8 }
/// The probability p and the log-odds x belong together: one is the image of
/// the other in the tables.
pub uninterp spec fn linked(p: FractOnlyU32, x: StretchedProbD) -> bool;
#[verifier::external_body]
pub proof fn middle() ensures linked(FractOnlyU32(0x4000_0000), StretchedProbD(0)) { }
pub uninterp spec fn precision(l: &ApmWeightingLut) -> int;
impl LookUpTables {
    #[verifier::external_body]
    pub fn squash_lut(&self) -> (r: &SquashLut) { unimplemented!() }
    #[verifier::external_body]
    pub fn stretch_lut(&self) -> (r: &StretchLut) { unimplemented!() }
    #[verifier::external_body]
    pub fn apm_lut(&self, bits: u8) -> (r: &ApmWeightingLut) requires bits <= 2 ensures precision(r) == bits { unimplemented!() }
    #[verifier::external_body]
    pub fn d_estimator_rates(&self) -> (r: &DeceleratingEstimatorRates) { unimplemented!() }
    #[verifier::external_body]
    pub fn direct_predictions(&self) -> (r: &DeceleratingEstimatorPredictions) { unimplemented!() }
}
impl SquashLut {
    #[verifier::external_body]
    pub fn squash(&self, x: StretchedProbD) -> (r: FractOnlyU32) requires in_limits(x) ensures linked(r, x), admissible(r) { unimplemented!() }
}
impl StretchLut {
    #[verifier::external_body]
    pub fn stretch(&self, p: FractOnlyU32) -> (r: StretchedProbD) requires admissible(p) ensures linked(p, r), in_limits(r) { unimplemented!() }
}
impl DeceleratingEstimatorPredictions {
    #[verifier::external_body]
    pub fn for_0_bit_run(&self, n: u16) -> (r: (FractOnlyU32, StretchedProbD)) requires n <= 1000 ensures admissible(r.0), in_limits(r.1) { unimplemented!() }
}
pub open spec fn paired(p: FractOnlyU32, x: StretchedProbD) -> bool { admissible(p) && in_limits(x) && linked(p, x) }
pub struct OccurrenceCountQuantizer;
pub uninterp spec fn quant(n: int) -> int;
impl OccurrenceCountQuantizer {
    /// C22.
    #[verifier::external_body]
    pub fn quantize(input: u16) -> (r: usize) ensures r == quant(input as int), r <= quant(0xffff) <= 31, forall|y: int| input <= y <= 0xffff ==> r <= #[trigger] quant(y) { unimplemented!() }
    #[verifier::external_body]
    pub fn max_output() -> (r: usize) ensures r == quant(0xffff), quant(0xffff) <= 31 { unimplemented!() }
}

// ---- statistics of a context (C09, C11, C12, C17) ------------------------------------
#[verifier::external_body]
pub struct DeceleratingEstimator { _p: u32 }
pub uninterp spec fn learned(e: DeceleratingEstimator) -> bool;
impl Copy for DeceleratingEstimator {}
impl Clone for DeceleratingEstimator { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for DeceleratingEstimator { #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() } }
impl DeceleratingEstimator {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures learned(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn prediction(&self) -> (r: FractOnlyU32) requires learned(*self) ensures admissible(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, bit: Bit, rates: &DeceleratingEstimatorRates) requires learned(*old(self)) ensures learned(*final(self)) { unimplemented!() }
}
#[verifier::external_body]
pub struct RecentBitsHistory { _p: u16 }
#[verifier::external_body]
pub struct BitsRunsTracker { _p: u32 }
impl Copy for BitsRunsTracker {}
impl Clone for BitsRunsTracker { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl BitsRunsTracker {
    #[verifier::external_body]
    pub fn last_bit(&self) -> (r: Bit) { unimplemented!() }
    #[verifier::external_body]
    pub fn last_bit_run_length(&self) -> (r: u16) ensures r <= 1000 { unimplemented!() }
    #[verifier::external_body]
    pub fn opposite_bit_run_length(&self) -> (r: u16) ensures r <= 1000 { unimplemented!() }
}
#[verifier::external_body]
pub struct CostTracker { _p: u16 }
impl CostTracker {
    #[verifier::external_body]
    pub fn raw(&self) -> (r: u16) { unimplemented!() }
}
#[verifier::external_body]
pub struct CostTrackers { _p: u32 }
impl Copy for CostTrackers {}
impl Clone for CostTrackers { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl CostTrackers {
    #[verifier::external_body]
    pub fn stationary(&self) -> (r: CostTracker) { unimplemented!() }
    #[verifier::external_body]
    pub fn non_stationary(&self) -> (r: CostTracker) { unimplemented!() }
    #[verifier::external_body]
    pub fn updated(&self, s: FractOnlyU32, n: FractOnlyU32, bit: Bit, luts: &LookUpTables) -> (r: Self) requires admissible(s), admissible(n) { unimplemented!() }
}

// ---- indexers (C21) -------------------------------------------------------------------
pub open spec fn prod(d: Seq<usize>) -> int decreases d.len() { if d.len() == 0 { 1 } else { prod(d.drop_last()) * d.last() } }
pub trait Indexer: Sized {
    spec fn dims(&self) -> Seq<usize>;
    spec fn given(&self) -> Seq<usize>;
    spec fn rank() -> nat;
    fn new(dimensions: Vec<usize>) -> (r: Self) requires dimensions@.len() == Self::rank() ensures r.dims() == dimensions@, r.given().len() == 0;
    fn get_array_size(&mut self) -> (r: usize) requires old(self).given().len() == 0, prod(old(self).dims()) <= 0xffff_ffff
        ensures r == prod(old(self).dims()), final(self).dims() == old(self).dims(), final(self).given() == old(self).given();
    fn with_sub_index(&mut self, value: usize) requires old(self).given().len() < old(self).dims().len(), value < old(self).dims()[old(self).given().len() as int]
        ensures final(self).dims() == old(self).dims(), final(self).given() == old(self).given().push(value);
    fn get_array_index_and_reset(&mut self) -> (r: usize) requires old(self).given().len() == old(self).dims().len()
        ensures final(self).dims() == old(self).dims(), final(self).given().len() == 0, r < prod(old(self).dims());
}
'''
for n in (2, 4, 5):
    PRELUDE += r'''
pub struct Indexer%(n)d { pub d: Ghost<Seq<usize>>, pub g: Ghost<Seq<usize>> }
impl Indexer for Indexer%(n)d {
    open spec fn dims(&self) -> Seq<usize> { self.d@ }
    open spec fn given(&self) -> Seq<usize> { self.g@ }
    open spec fn rank() -> nat { %(n)d }
    #[verifier::external_body]
    fn new(dimensions: Vec<usize>) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn get_array_size(&mut self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn with_sub_index(&mut self, value: usize) { unimplemented!() }
    #[verifier::external_body]
    fn get_array_index_and_reset(&mut self) -> (r: usize) { unimplemented!() }
}
''' % dict(n=n)
PRELUDE += r'''
/// `indexer.with_sub_index(a).with_sub_index(b)..` with the values as a list.
pub open spec fn fit(d: Seq<usize>, g: Seq<usize>, a: Seq<usize>) -> bool {
    g.len() + a.len() <= d.len() && forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] < d[g.len() + j]
}
pub fn vx_setup<Idx: Indexer>(indexer: &mut Idx, values: Vec<usize>)
    requires fit(old(indexer).dims(), old(indexer).given(), values@)
    ensures final(indexer).dims() == old(indexer).dims(), final(indexer).given() =~= old(indexer).given() + values@
{
    for i in 0..values.len()
        invariant indexer.dims() == old(indexer).dims(), indexer.given() =~= old(indexer).given() + values@.take(i as int), fit(old(indexer).dims(), old(indexer).given(), values@)
    {
        proof { assert(values@[i as int] < old(indexer).dims()[old(indexer).given().len() + i]); }
        indexer.with_sub_index(values[i]);
        proof { assert(values@.take(i + 1) =~= values@.take(i as int).push(values@[i as int])); }
    }
    proof { assert(values@.take(values@.len() as int) =~= values@); }
}

// ---- mixers (C07) ------------------------------------------------------------------------
pub trait Mixer: Sized {
    /// Number of inputs of every mixer of the type (0: it varies).
    spec fn slots() -> int;
    spec fn size(&self) -> int;
    spec fn input(&self, i: int) -> Option<FractOnlyU32>;
    spec fn factor(&self) -> int;
    proof fn sized(&self) requires Self::slots() > 0 ensures self.size() == Self::slots();
    fn set_input(&mut self, index: usize, sq: FractOnlyU32, st: StretchedProbD)
        requires 0 <= index < old(self).size(), old(self).input(index as int) is None, in_limits(st)
        ensures final(self).size() == old(self).size(), final(self).factor() == old(self).factor(),
            forall|i: int| #[trigger] final(self).input(i) == if i == index { Some(sq) } else { old(self).input(i) };
    fn mix_all(&self, lut: &SquashLut) -> (r: (FractOnlyU32, StretchedProbD))
        requires forall|i: int| 0 <= i < self.size() ==> (#[trigger] self.input(i)) is Some
        ensures in_limits(r.1), admissible(r.0), linked(r.0, r.1);
    fn update_and_reset(&mut self, bit: Bit, sq: FractOnlyU32, max_update_factor_index: u16, rates: &DeceleratingEstimatorRates)
        requires forall|i: int| 0 <= i < old(self).size() ==> (#[trigger] old(self).input(i)) is Some, admissible(sq),
            old(self).factor() <= max_update_factor_index <= 1000
        ensures final(self).size() == old(self).size(), final(self).factor() <= max_update_factor_index, forall|i: int| (#[trigger] final(self).input(i)) is None;
    fn prediction_sq(&self, index: usize) -> (r: FractOnlyU32) requires 0 <= index < self.size(), self.input(index as int) is Some ensures Some(r) == self.input(index as int);
}
pub enum MixerInitializationMode { AllZero, DominantFirst, EqualSummingToOne }
pub open spec fn empty<M: Mixer>(m: M) -> bool { forall|i: int| (#[trigger] m.input(i)) is None }
'''
for n, slots in (("3", "3"), ("4", "4"), ("N", "0")):
    PRELUDE += r'''
pub struct Mixer%(n)s { pub s: Ghost<int>, pub i: Ghost<Map<int, FractOnlyU32>>, pub f: Ghost<int> }
impl Mixer for Mixer%(n)s {
    open spec fn slots() -> int { %(s)s }
    open spec fn size(&self) -> int { %(z)s }
    open spec fn input(&self, i: int) -> Option<FractOnlyU32> { if self.i@.dom().contains(i) { Some(self.i@[i]) } else { None } }
    open spec fn factor(&self) -> int { self.f@ }
    proof fn sized(&self) {}
    #[verifier::external_body]
    fn set_input(&mut self, index: usize, sq: FractOnlyU32, st: StretchedProbD) { unimplemented!() }
    #[verifier::external_body]
    fn mix_all(&self, lut: &SquashLut) -> (r: (FractOnlyU32, StretchedProbD)) { unimplemented!() }
    #[verifier::external_body]
    fn update_and_reset(&mut self, bit: Bit, sq: FractOnlyU32, max_update_factor_index: u16, rates: &DeceleratingEstimatorRates) { unimplemented!() }
    #[verifier::external_body]
    fn prediction_sq(&self, index: usize) -> (r: FractOnlyU32) { unimplemented!() }
}
impl Mixer%(n)s {
    #[verifier::external_body]
    pub fn new(%(a)sfactor: u16, mode: MixerInitializationMode) -> (r: Self) requires factor <= 1000 ensures empty(r), r.factor() == factor%(e)s { unimplemented!() }
}
''' % dict(n=n, s=slots, z="self.s@" if n == "N" else slots, a="size: usize, " if n == "N" else "", e=", r.size() == size" if n == "N" else "")
PRELUDE += r'''
/// `mixer.set_input(a, b, c); ..` with the arguments as a list.
pub struct VxInput(pub usize, pub FractOnlyU32, pub StretchedProbD);
impl Copy for VxInput {}
impl Clone for VxInput { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn sets(s: Seq<VxInput>, k: int) -> bool decreases s.len() { s.len() > 0 && (s.last().0 == k || sets(s.drop_last(), k)) }
pub open spec fn once(s: Seq<VxInput>) -> bool decreases s.len() { s.len() == 0 || (!sets(s.drop_last(), s.last().0 as int) && once(s.drop_last())) }
/// Every input of a mixer with n inputs is set once, to something it accepts.
pub open spec fn inputs_ok(s: Seq<VxInput>, n: int) -> bool {
    &&& once(s) && forall|k: int| 0 <= k < n ==> #[trigger] sets(s, k)
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 < n && in_limits(s[i].2) && admissible(s[i].1)
}
pub proof fn in_prefix(s: Seq<VxInput>, i: int)
    requires 0 <= i < s.len(), once(s)
    ensures !sets(s.take(i), s[i].0 as int), s.take(i + 1).drop_last() == s.take(i), s.take(i + 1).last() == s[i]
    decreases s.len()
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    if i < s.len() - 1 {
        in_prefix(s.drop_last(), i);
        assert(s.drop_last().take(i) =~= s.take(i));
    } else { assert(s.take(i) =~= s.drop_last()); }
}
pub fn vx_inputs<M: Mixer>(mixer: &mut M, inputs: Vec<VxInput>)
    requires empty(*old(mixer)), inputs_ok(inputs@, old(mixer).size())
    ensures final(mixer).size() == old(mixer).size(), final(mixer).factor() == old(mixer).factor(), all_in(*final(mixer))
{
    for i in 0..inputs.len()
        invariant mixer.size() == old(mixer).size(), mixer.factor() == old(mixer).factor(), inputs_ok(inputs@, old(mixer).size()),
            forall|k: int| (#[trigger] mixer.input(k)) is Some == sets(inputs@.take(i as int), k),
            forall|k: int| (#[trigger] mixer.input(k)) is Some ==> admissible(mixer.input(k)->0)
    {
        proof { in_prefix(inputs@, i as int); assert(inputs@[i as int].0 < old(mixer).size()); }
        let vx_a = inputs[i];
        mixer.set_input(vx_a.0, vx_a.1, vx_a.2);
    }
    proof { assert(inputs@.take(inputs@.len() as int) =~= inputs@);
        assert forall|k: int| 0 <= k < mixer.size() implies (#[trigger] mixer.input(k)) is Some by { assert(sets(inputs@, k)); } }
}
pub open spec fn all_in<M: Mixer>(m: M) -> bool {
    forall|k: int| 0 <= k < m.size() ==> (#[trigger] m.input(k)) is Some && admissible(m.input(k)->0)
}

// ---- adaptive maps (C08), last bytes (C20) ------------------------------------------------
#[verifier::external_body]
pub struct AdaptiveProbabilityMap { _p: u8 }
pub uninterp spec fn rows(m: &AdaptiveProbabilityMap) -> int;
pub uninterp spec fn fine(m: &AdaptiveProbabilityMap) -> int;
pub uninterp spec fn refined(m: &AdaptiveProbabilityMap) -> Option<int>;
impl AdaptiveProbabilityMap {
    #[verifier::external_body]
    pub fn new(contexts: usize, bits: u8, lut: &SquashLut) -> (r: Self) requires bits <= 2 ensures rows(&r) == contexts, fine(&r) == bits, refined(&r) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn refine(&mut self, context: usize, p: FractOnlyU32, x: StretchedProbD, lut: &ApmWeightingLut) -> (r: FractOnlyU32)
        requires context < rows(old(self)), refined(old(self)) is None, fine(old(self)) == precision(lut), paired(p, x)
        ensures admissible(r), rows(final(self)) == rows(old(self)), fine(final(self)) == fine(old(self)), refined(final(self)) == Some(context as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn update_predictions(&mut self, context: usize, bit: Bit, rate: u8, both: bool)
        requires refined(old(self)) == Some(context as int), 0 < rate < 30
        ensures rows(final(self)) == rows(old(self)), fine(final(self)) == fine(old(self)), refined(final(self)) is None
    { unimplemented!() }
}
pub struct UnfinishedByte(pub u8);
impl UnfinishedByte {
    #[verifier::external_body]
    pub fn raw(&self) -> (r: u8) ensures r == self.0 { unimplemented!() }
}
#[verifier::external_body]
pub struct LastBytesCache { _p: u8 }
pub uninterp spec fn bit_index(c: &LastBytesCache) -> int;
pub uninterp spec fn unfinished(c: &LastBytesCache) -> u8;
pub uninterp spec fn hash1(c: &LastBytesCache) -> u16;
pub uninterp spec fn hash2(c: &LastBytesCache) -> u16;
pub uninterp spec fn hash3(c: &LastBytesCache) -> u16;
impl LastBytesCache {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures bit_index(&r) == -1 { unimplemented!() }
    #[verifier::external_body]
    pub fn start_new_byte(&mut self) requires bit_index(old(self)) == -1 ensures bit_index(final(self)) == 7 { unimplemented!() }
    #[verifier::external_body]
    pub fn on_next_bit(&mut self, bit: Bit) requires bit_index(old(self)) >= 0 ensures bit_index(final(self)) == bit_index(old(self)) - 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn unfinished_byte(&self) -> (r: UnfinishedByte) requires bit_index(self) >= 0 ensures r.0 == unfinished(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn hash01_16(&self) -> (r: u16) requires bit_index(self) >= 0 ensures r == hash1(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn hash02_16(&self) -> (r: u16) requires bit_index(self) >= 0 ensures r == hash2(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn hash03_16(&self) -> (r: u16) requires bit_index(self) >= 0 ensures r == hash3(self) { unimplemented!() }
}

// ---- std ---------------------------------------------------------------------------------------
#[verifier::external_body]
pub fn vx_capacity<T>(v: &Vec<T>, asked: usize) -> (r: usize) ensures r == asked { unimplemented!() }
#[verifier::external_body]
pub fn vx_extend(v: &mut Vec<usize>, more: Vec<usize>) ensures final(v)@ == old(v)@ + more@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_extend_opt<T>(v: &mut Vec<T>, more: Option<T>) ensures final(v)@ == (if more is Some { old(v)@.push(more->0) } else { old(v)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_never<T>() -> T requires false { unimplemented!() }
'''

SPECS = r'''
pub open spec fn calm<M: Mixer>(s: Seq<M>, but: Option<usize>, max: int) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).factor() <= max && ((but is None || but->0 != i) ==> empty(s[i]))
}
// ---- vocabulary ------------------------------------------------------------------------------------
impl<Idx: Indexer> EstimatorsWithIndexer<Idx> {
    pub open spec fn wf(&self) -> bool {
        &&& self.estimators@.len() == prod(self.indexer.dims()) && self.indexer.given().len() == 0
        &&& forall|i: int| 0 <= i < self.estimators@.len() ==> learned(#[trigger] self.estimators@[i])
    }
    pub open spec fn idle(&self) -> bool { self.wf() && self.index_opt is None }
    pub open spec fn waiting(&self) -> bool { self.wf() && self.index_opt is Some && self.index_opt->0 < self.estimators@.len() }
}
impl<Mxr: Mixer, Idx: Indexer> MixersWithIndexer<Mxr, Idx> {
    /// All mixers but the one chosen are empty and no faster than `max`.
    pub open spec fn wf(&self, max: int) -> bool {
        &&& Mxr::slots() > 0 && self.mixers@.len() == prod(self.indexer.dims())
        &&& calm(self.mixers@, self.index_opt, max)
    }
    pub open spec fn idle(&self, max: int) -> bool { self.wf(max) && self.index_opt is None && self.mixing_result_opt is None }
    pub open spec fn waiting(&self, max: int) -> bool {
        &&& self.wf(max) && self.index_opt is Some && self.index_opt->0 < self.mixers@.len() && self.indexer.given().len() == 0
        &&& self.mixing_result_opt is Some && admissible((self.mixing_result_opt->0).0)
        &&& all_in(self.mixers@[self.index_opt->0 as int])
    }
}
/// Whatever `f` returns is a mixer with no inputs, no faster than `max`.
pub open spec fn makes<M: Mixer, F: Fn() -> M>(f: F, max: int) -> bool { forall|m: M| call_ensures(f, (), m) ==> empty(m) && m.factor() <= max }
/// Statistics a history source can report (C17).
pub open spec fn sound(c: ContextState) -> bool {
    match c {
        ContextState::ForEdge { occurrence_count, .. } => 1 <= occurrence_count <= 1000,
        ContextState::ForNode { probability_estimator, .. } => learned(probability_estimator),
    }
}
/// What a history source reports (C18): orders from 0 up, at most `n` of them,
/// a context that has seen both bits is never longer than one that has not.
pub open spec fn chained(s: Seq<ContextState>, n: int) -> bool {
    &&& s.len() <= n
    &&& forall|i: int| 0 <= i < s.len() ==> sound(#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[j] is ForNode ==> #[trigger] s[i] is ForNode
}
pub open spec fn nodes(s: Seq<ContextState>) -> int decreases s.len() { if s.len() == 0 { 0 } else { nodes(s.drop_last()) + if s.last() is ForNode { 1int } else { 0 } } }
pub proof fn one_more(s: Seq<ContextState>, i: int)
    requires 0 <= i < s.len()
    ensures nodes(s.take(i + 1)) == nodes(s.take(i)) + if s[i] is ForNode { 1int } else { 0 }
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
impl SingleContextPredictor {
    pub open spec fn wf(&self) -> bool {
        &&& admissible(self.edge_fixed_prediction.0) && in_limits(self.edge_fixed_prediction.1)
        &&& self.edge_occur_and_byte.indexer.dims() == seq![(quant(1000) + 1) as usize, 256usize]
        &&& self.node_bits_run.indexer.dims() == seq![(quant(1000) + 1) as usize, 2usize]
        &&& 0 <= quant(1000) <= 31
    }
    pub open spec fn idle(&self) -> bool { self.wf() && self.edge_occur_and_byte.idle() && self.node_bits_run.idle() }
    pub open spec fn waiting(&self, node: bool) -> bool {
        &&& self.wf()
        &&& if node { self.edge_occur_and_byte.idle() && self.node_bits_run.waiting() } else { self.edge_occur_and_byte.waiting() && self.node_bits_run.idle() }
    }
}
pub open spec fn edge_tail(d: Seq<usize>) -> bool { d.len() == 4 && d[0] == 2 && d[1] == 3 && d[2] == 4 && d[3] == 2 }
pub open spec fn node_tail(d: Seq<usize>) -> bool { d.len() == 5 && d[0] == 2 && d[1] == 3 && d[2] == 6 && d[3] == 4 && d[4] == quant(0xffff) + 1 }
pub proof fn products()
    ensures forall|d: Seq<usize>| d.len() == 2 && d[0] <= 32 && d[1] <= 256 ==> #[trigger] prod(d) <= 8192,
        forall|d: Seq<usize>| edge_tail(d) ==> #[trigger] prod(d) == 48,
        forall|d: Seq<usize>| node_tail(d) && 0 <= quant(0xffff) <= 31 ==> #[trigger] prod(d) <= 144 * 32,
{
    reveal_with_fuel(prod, 6);
    assert forall|d: Seq<usize>| d.len() == 2 && d[0] <= 32 && d[1] <= 256 implies #[trigger] prod(d) <= 8192 by {
        assert(prod(d) == d[0] * d[1]);
        assert(d[0] * d[1] <= 8192) by (nonlinear_arith) requires d[0] <= 32, d[1] <= 256;
    }
    assert forall|d: Seq<usize>| edge_tail(d) implies #[trigger] prod(d) == 48 by { four(d); }
    assert forall|d: Seq<usize>| node_tail(d) && 0 <= quant(0xffff) <= 31 implies #[trigger] prod(d) <= 144 * 32 by {
        four(d.drop_last());
        assert(prod(d) == prod(d.drop_last()) * d.last());
    }
}
pub proof fn four(d: Seq<usize>)
    requires d.len() == 4, d[0] == 2, d[1] == 3, (d[2] == 4 && d[3] == 2) || (d[2] == 6 && d[3] == 4)
    ensures prod(d) == if d[2] == 4 { 48int } else { 144 }
{
    let c = d.drop_last();
    let b = c.drop_last();
    let a = b.drop_last();
    assert(prod(a.drop_last()) == 1);
    assert(prod(a) == 2);
    assert(prod(b) == 6);
    assert(prod(c) == 6 * d[2]);
    assert(prod(d) == prod(c) * d[3]);
}
impl ContextsChainPredictionMixer {
    pub open spec fn wf(&self, n: int) -> bool {
        self.single_context_predictors@.len() == n && self.edge_mixer_kits@.len() == n && self.node_mixer_kits@.len() == n
    }
    pub open spec fn idle_at(&self, i: int) -> bool {
        &&& self.single_context_predictors@[i].idle()
        &&& edge_tail(self.edge_mixer_kits@[i].indexer.dims()) && self.edge_mixer_kits@[i].idle(300) && self.edge_mixer_kits@[i].indexer.given().len() == 0
        &&& node_tail(self.node_mixer_kits@[i].indexer.dims()) && self.node_mixer_kits@[i].idle(100) && self.node_mixer_kits@[i].indexer.given().len() == 0
    }
    pub open spec fn waiting_at(&self, i: int, node: bool) -> bool {
        &&& self.single_context_predictors@[i].waiting(node)
        &&& edge_tail(self.edge_mixer_kits@[i].indexer.dims()) && self.edge_mixer_kits@[i].indexer.given().len() == 0
        &&& node_tail(self.node_mixer_kits@[i].indexer.dims()) && self.node_mixer_kits@[i].indexer.given().len() == 0
        &&& if node { self.edge_mixer_kits@[i].idle(300) && self.node_mixer_kits@[i].waiting(100) }
            else { self.edge_mixer_kits@[i].waiting(300) && self.node_mixer_kits@[i].idle(100) }
    }
    pub open spec fn idle(&self, n: int) -> bool { self.wf(n) && forall|i: int| 0 <= i < n ==> #[trigger] self.idle_at(i) }
    pub open spec fn waiting(&self, n: int, s: Seq<ContextState>) -> bool {
        &&& self.wf(n)
        &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] self.waiting_at(i, s[i] is ForNode)
        &&& forall|i: int| s.len() <= i < n ==> #[trigger] self.idle_at(i)
    }
}
impl PredictionFinalizer {
    pub open spec fn wf(&self) -> bool {
        &&& rows(&self.phase0_order0) == 256 && rows(&self.phase1_order1) == 0x1_0000 && rows(&self.phase1_order2) == 0x1_0000 && rows(&self.phase1_order3) == 0x1_0000
        &&& fine(&self.phase0_order0) == 0 && fine(&self.phase1_order1) == 0 && fine(&self.phase1_order2) == 0 && fine(&self.phase1_order3) == 0
        &&& self.mixing_result_opt is None
    }
    pub open spec fn idle(&self) -> bool {
        self.wf() && refined(&self.phase0_order0) is None && refined(&self.phase1_order1) is None && refined(&self.phase1_order2) is None && refined(&self.phase1_order3) is None
    }
    /// The four maps were refined for the recent bytes `c`.
    pub open spec fn waiting(&self, c: &LastBytesCache) -> bool {
        &&& self.wf()
        &&& refined(&self.phase0_order0) == Some(unfinished(c) as int) && refined(&self.phase1_order1) == Some(hash1(c) as int)
        &&& refined(&self.phase1_order2) == Some(hash2(c) as int) && refined(&self.phase1_order3) == Some(hash3(c) as int)
    }
}
'''

REST = r'''
// ---- history source (C18, C19), statistics (C26) ----------------------------------------------------
pub struct CollectedContextStates { pub items: Vec<ContextState> }
impl CollectedContextStates {
    #[verifier::external_body]
    pub fn new(max_order: usize) -> (r: Self) ensures r.items@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures final(self).items@.len() == 0 { unimplemented!() }
    pub fn items(&self) -> (r: &[ContextState]) ensures r@ == self.items@ { self.items.as_slice() }
}
#[verifier::external_body]
pub struct TreeHistorySource { _p: u8 }
pub uninterp spec fn tree_bit(t: &TreeHistorySource) -> int;
pub uninterp spec fn reports(t: &TreeHistorySource) -> Seq<ContextState>;
pub uninterp spec fn limit(t: &TreeHistorySource) -> int;
impl TreeHistorySource {
    #[verifier::external_body]
    pub fn new(window: usize, max_order: usize, luts: &LookUpTables) -> (r: Self) ensures tree_bit(&r) == -1, limit(&r) == max_order + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn start_new_byte(&mut self) requires tree_bit(old(self)) == -1 ensures tree_bit(final(self)) == 7, limit(final(self)) == limit(old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn gather_history_states(&self, c: &mut CollectedContextStates) requires old(c).items@.len() == 0, tree_bit(self) >= 0
        ensures final(c).items@ == reports(self), chained(reports(self), limit(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn process_input_bit(&mut self, bit: Bit, costs: &Vec<CostTrackers>) requires tree_bit(old(self)) >= 0, costs@.len() == nodes(reports(old(self)))
        ensures tree_bit(final(self)) == tree_bit(old(self)) - 1, limit(final(self)) == limit(old(self)) { unimplemented!() }
}
#[verifier::external_body]
pub struct PredictionStatistics { _p: u8 }
pub uninterp spec fn orders(s: &PredictionStatistics) -> int;
impl PredictionStatistics {
    #[verifier::external_body]
    pub fn new(max_order: usize, luts: &LookUpTables) -> (r: Self) ensures orders(&r) == max_order + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn start_new_byte(&mut self, c: &LastBytesCache) requires bit_index(c) == 7 ensures orders(final(self)) == orders(old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn on_next_bit(&mut self, bit: Bit, c: &CollectedContextStates, p: FinalProbability) requires c.items@.len() <= orders(old(self)), codable(p)
        ensures orders(final(self)) == orders(old(self)) { unimplemented!() }
}
'''
LAST = r'''
impl Predictor {
    pub open spec fn wf(&self) -> bool {
        &&& limit(&self.tree_source) == 21 && orders(&self.statistics) == 21
        &&& tree_bit(&self.tree_source) == bit_index(&self.last_bytes)
    }
    /// Between two bits.
    pub open spec fn idle(&self) -> bool {
        self.wf() && self.final_probability_opt is None && self.contexts_chain_predictor.idle(21) && self.prediction_finalizer.idle()
    }
    /// After a prediction.
    pub open spec fn waiting(&self) -> bool {
        &&& self.wf() && self.final_probability_opt is Some && codable(self.final_probability_opt->0) && bit_index(&self.last_bytes) >= 0
        &&& self.contexts_chain.items@ == reports(&self.tree_source) && chained(self.contexts_chain.items@, 21)
        &&& self.contexts_chain_predictor.waiting(21, self.contexts_chain.items@)
        &&& self.prediction_finalizer.waiting(&self.last_bytes)
    }
}
'''

KIT = "final(self).indexer.dims() == old(self).indexer.dims()"
EST = {
    "new": dict(spec="""requires indexer.given().len() == 0, prod(indexer.dims()) <= 0xffff_ffff
ensures res.idle(), res.indexer.dims() == indexer.dims()"""),
    "predict": dict(spec="""requires old(self).idle(), setup_indexer@.len() == old(self).indexer.dims().len(), fit(old(self).indexer.dims(), Seq::empty(), setup_indexer@)
ensures final(self).waiting(), admissible(res.0), in_limits(res.1), """ + KIT,
                    begin="proof { assert(self.indexer.given() =~= Seq::<usize>::empty()); }\n"),
    "update": dict(spec="requires old(self).waiting()\nensures final(self).idle(), " + KIT),
}
MIX = {
    "new": dict(spec="""requires Mxr::slots() > 0, indexer.given().len() == 0, prod(indexer.dims()) <= 0xffff_ffff, call_requires(mixer_maker, ())
ensures forall|max: int| #[trigger] makes::<Mxr, MxrMaker>(mixer_maker, max) ==> res.idle(max),
    makes::<Mxr, MxrMaker>(mixer_maker, 300) ==> res.idle(300), makes::<Mxr, MxrMaker>(mixer_maker, 100) ==> res.idle(100),
    res.indexer.dims() == indexer.dims(), res.indexer.given().len() == 0""",
                begin="let ghost d0 = indexer.dims();\n",
                loops=[dict(inv="""invariant mixers@.len() == vx_i, vx_asked == prod(d0), indexer.dims() == d0, indexer.given().len() == 0, Mxr::slots() > 0, call_requires(mixer_maker, ()), forall|i: int| 0 <= i < mixers@.len() ==> call_ensures(mixer_maker, (), #[trigger] mixers@[i])""",
                            after="""proof { assert(mixers@.len() == prod(d0)); assert(indexer.dims() == d0); assert forall|max: int| #[trigger] makes::<Mxr, MxrMaker>(mixer_maker, max) implies calm(mixers@, None, max) by { assert forall|i: int| 0 <= i < mixers@.len() implies empty(#[trigger] mixers@[i]) && mixers@[i].factor() <= max by { assert(call_ensures(mixer_maker, (), mixers@[i])); } } }""")]),
    "pre_predict": dict(spec="""requires exists|max: int| #[trigger] old(self).idle(max), fit(old(self).indexer.dims(), old(self).indexer.given(), setup_indexer@)
ensures forall|max: int| #[trigger] old(self).idle(max) ==> final(self).idle(max), %s, final(self).indexer.given() =~= old(self).indexer.given() + setup_indexer@""" % KIT),
    "predict": dict(spec="""requires exists|max: int| #[trigger] old(self).idle(max), fit(old(self).indexer.dims(), old(self).indexer.given(), setup_indexer@),
    old(self).indexer.given().len() + setup_indexer@.len() == old(self).indexer.dims().len(), inputs_ok(add_inputs@, Mxr::slots())
ensures forall|max: int| #[trigger] old(self).idle(max) ==> final(self).waiting(max), %s, paired(res.0, res.1)""" % KIT,
                    insert=[(r"let mixer = &mut self\.mixers\[index\];", "\nproof { mixer.sized(); }\n")]),
    "update": dict(spec="""requires old(self).waiting(max_update_factor_index as int), max_update_factor_index <= 1000
ensures final(self).idle(max_update_factor_index as int), %s, final(self).indexer.given().len() == 0""" % KIT),
    "current_mixer": dict(spec="requires self.index_opt is Some, self.index_opt->0 < self.mixers@.len()\nensures *res == self.mixers@[self.index_opt->0 as int]"),
}
SINGLE = {
    "new_edge_mixer": dict(spec="ensures empty(res), res.factor() <= 300"),
    "new_node_mixer": dict(spec="ensures empty(res), res.factor() <= 100"),
    "edge_mixer_extra_dimensions": dict(spec="ensures res@ =~= seq![4usize, 2usize]"),
    "node_mixer_extra_dimensions": dict(spec="ensures res@ =~= seq![6usize, 4usize, (quant(0xffff) + 1) as usize], 0 <= quant(0xffff) <= 31"),
    "new": dict(spec="ensures res.idle()",
                begin="proof { assert(2i32 << 21u8 == 0x40_0000) by (bit_vector); products(); }\n"),
    "predict": dict(spec="""requires old(self).idle(), sound(*ctx_state), admissible(lower_order_probability.0), in_limits(lower_order_probability.1),
    old(mixer_kit).indexer.given().len() == 2,
    ctx_state is ForEdge ==> edge_tail(old(mixer_kit).indexer.dims()) && Mxr::slots() == 4 && old(mixer_kit).idle(300),
    ctx_state is ForNode ==> node_tail(old(mixer_kit).indexer.dims()) && Mxr::slots() == 3 && old(mixer_kit).idle(100)
ensures final(self).waiting(ctx_state is ForNode), final(mixer_kit).waiting(if ctx_state is ForNode { 100 } else { 300 }),
    final(mixer_kit).indexer.dims() == old(mixer_kit).indexer.dims(),
    paired(res.0, res.1)""",
                    begin="proof { reveal_with_fuel(sets, 6); reveal_with_fuel(once, 6); }\n"),
    "update": dict(spec="""requires old(self).waiting(ctx_state is ForNode), old(mixer_kit).waiting(if ctx_state is ForNode { 100 } else { 300 }),
    ctx_state is ForNode ==> Mxr::slots() == 3
ensures final(self).idle(), final(mixer_kit).idle(if ctx_state is ForNode { 100 } else { 300 }), final(mixer_kit).indexer.dims() == old(mixer_kit).indexer.dims(),
    final(mixer_kit).indexer.given().len() == 0, res is Some == ctx_state is ForNode""",
                   insert=[(r"let mixer = mixer_kit\.current_mixer\(\);", "\nproof { mixer.sized(); assert(mixer.input(1) is Some && mixer.input(2) is Some); }\n")]),
}
LUTS = "res.luts == luts"
CHAIN = {
    "new": dict(spec="requires max_order < 0x1_0000\nensures res.idle(max_order + 1), res.luts == luts",
                begin="proof { products(); }\n",
                loops=[dict(inv="""invariant single_context_predictors@.len() == vx_i, edge_mixer_kits@.len() == vx_i, node_mixer_kits@.len() == vx_i,
    forall|i: int| 0 <= i < vx_i ==> (#[trigger] single_context_predictors@[i]).idle(),
    forall|i: int| 0 <= i < vx_i ==> edge_tail((#[trigger] edge_mixer_kits@[i]).indexer.dims()) && edge_mixer_kits@[i].idle(300) && edge_mixer_kits@[i].indexer.given().len() == 0,
    forall|i: int| 0 <= i < vx_i ==> node_tail((#[trigger] node_mixer_kits@[i]).indexer.dims()) && node_mixer_kits@[i].idle(100) && node_mixer_kits@[i].indexer.given().len() == 0,
    forall|x: Vec<usize>| #[trigger] call_requires(make_dimensions, (x,)),
    forall|x: Vec<usize>, y: Vec<usize>| #[trigger] call_ensures(make_dimensions, (x,), y) ==> y@ == seq![2usize, 3usize] + x@""",
                            begin="proof { products(); }\n")]),
    "predict": dict(spec="""requires old(self).idle(old(self).single_context_predictors@.len() as int), chained(contexts.items@, old(self).single_context_predictors@.len() as int)
ensures final(self).luts == old(self).luts, final(self).waiting(old(self).single_context_predictors@.len() as int, contexts.items@), paired(res.0, res.1)""",
                    begin="let ghost n = self.single_context_predictors@.len() as int;\nproof { middle(); }\n",
                    loops=[dict(inv="""invariant vx_s@ == contexts.items@, vx_n == vx_s@.len(), self.luts == old(self).luts, self.wf(n), chained(contexts.items@, n), paired(last_probability.0, last_probability.1),
    forall|i: int| 0 <= i < order ==> #[trigger] self.waiting_at(i, contexts.items@[i] is ForNode),
    forall|i: int| order <= i < n ==> #[trigger] self.idle_at(i)""",
                                begin="""let ghost before = *self;
proof { assert(self.idle_at(order as int)); assert(sound(contexts.items@[order as int]));
    if order > 0 { assert(contexts.items@[order as int] is ForNode ==> contexts.items@[order - 1] is ForNode); } }
""",
                                end="""
proof {
    assert forall|i: int| 0 <= i < order + 1 implies #[trigger] self.waiting_at(i, contexts.items@[i] is ForNode) by { if i < order { assert(before.waiting_at(i, contexts.items@[i] is ForNode)); } }
    assert forall|i: int| order + 1 <= i < n implies #[trigger] self.idle_at(i) by { assert(before.idle_at(i)); }
}
""")]),
    "update": dict(spec="""requires old(self).waiting(old(self).single_context_predictors@.len() as int, contexts.items@), chained(contexts.items@, old(self).single_context_predictors@.len() as int)
ensures final(self).luts == old(self).luts, final(self).idle(old(self).single_context_predictors@.len() as int), res@.len() == nodes(contexts.items@)""",
                   begin="let ghost n = self.single_context_predictors@.len() as int;\n",
                   loops=[dict(inv="""invariant vx_s@ == contexts.items@, vx_n == vx_s@.len(), self.luts == old(self).luts, self.wf(n), chained(contexts.items@, n), cost_trackers@.len() == nodes(vx_s@.take(order as int)),
    forall|i: int| 0 <= i < order ==> #[trigger] self.idle_at(i),
    forall|i: int| order <= i < contexts.items@.len() ==> #[trigger] self.waiting_at(i, contexts.items@[i] is ForNode),
    forall|i: int| contexts.items@.len() <= i < n ==> #[trigger] self.idle_at(i)""",
                               begin="""let ghost before = *self;
proof { assert(self.waiting_at(order as int, contexts.items@[order as int] is ForNode)); one_more(vx_s@, order as int); }
""",
                               end="""
proof {
    assert forall|i: int| 0 <= i < order + 1 implies #[trigger] self.idle_at(i) by { if i < order { assert(before.idle_at(i)); } }
    assert forall|i: int| order + 1 <= i < contexts.items@.len() implies #[trigger] self.waiting_at(i, contexts.items@[i] is ForNode) by { assert(before.waiting_at(i, contexts.items@[i] is ForNode)); }
    assert forall|i: int| contexts.items@.len() <= i < n implies #[trigger] self.idle_at(i) by { assert(before.idle_at(i)); }
}
""", after="proof { assert(vx_s@.take(vx_n as int) =~= contexts.items@); }\n")]),
    "compare_context_states": dict(spec="requires current is ForNode ==> previous is ForNode, sound(*previous), sound(*current)\nensures res <= 2"),
}
FINAL = {
    "new": dict(spec="ensures res.idle(), res.luts == luts"),
    "refine": dict(spec="""requires old(self).idle(), bit_index(last_bytes) >= 0, paired(input_sq, input_st)
ensures final(self).luts == old(self).luts, final(self).waiting(last_bytes), codable(res)"""),
    "update": dict(spec="requires old(self).waiting(last_bytes), bit_index(last_bytes) >= 0\nensures final(self).luts == old(self).luts, final(self).idle()"),
}
PRED = {
    "new": dict(spec="ensures res.idle(), bit_index(&res.last_bytes) == -1"),
    "start_new_byte": dict(spec="requires old(self).idle(), bit_index(&old(self).last_bytes) == -1\nensures final(self).idle(), bit_index(&final(self).last_bytes) == 7"),
    "predict": dict(spec="""requires old(self).idle(), bit_index(&old(self).last_bytes) >= 0
ensures final(self).waiting(), bit_index(&final(self).last_bytes) == bit_index(&old(self).last_bytes), codable(res), final(self).final_probability_opt == Some(res)"""),
    "update": dict(spec="requires old(self).waiting()\nensures final(self).idle(), bit_index(&final(self).last_bytes) == bit_index(&old(self).last_bytes) - 1"),
}


def imp(file, name, header, emit, fns, **k):
    return dict(kind="impl", file=D + file, name=name, headers=[header], emit=emit, fns=fns, **k)


UNITS = [
    dict(kind="enum", file="src/history/mod.rs", name="ContextState"),
    dict(kind="struct", file=D + "kits.rs", name="EstimatorsWithIndexer"),
    dict(kind="struct", file=D + "kits.rs", name="MixersWithIndexer"),
    dict(kind="struct", file=D + "single.rs", name="SingleContextPredictor"),
    dict(kind="struct", file=D + "chain.rs", name="ContextsChainPredictionMixer"),
    dict(kind="text", text="pub "),
    dict(kind="const", file=D + "post_process.rs", name="MODE"),
    dict(kind="enum", file=D + "post_process.rs", name="Mode"),
    dict(kind="struct", file=D + "post_process.rs", name="PredictionFinalizer"),
    dict(kind="text", text=SPECS),
    dict(kind="text", text=REST),
    dict(kind="impl", file="src/history/mod.rs", name="history::ContextState", headers=["impl ContextState"], emit="impl ContextState",
         only=["is_for_node"], fns={"is_for_node": dict(spec="ensures res == (self is ForNode)")},
         inside="    #[verifier::external_body]\n    pub fn probability_estimator(&self, luts: &LookUpTables) -> (r: DeceleratingEstimator) requires sound(*self) { unimplemented!() }\n"),
    imp("kits.rs", "predictor::kits::EstimatorsWithIndexer", "impl<Idx: Indexer> EstimatorsWithIndexer<Idx>", "impl<Idx: Indexer> EstimatorsWithIndexer<Idx>", EST),
    imp("kits.rs", "predictor::kits::MixersWithIndexer", "impl<Mxr: Mixer, Idx: Indexer> MixersWithIndexer<Mxr, Idx>", "impl<Mxr: Mixer, Idx: Indexer> MixersWithIndexer<Mxr, Idx>", MIX),
    dict(kind="text", text="impl BitsRunsTracker {"),
    dict(kind="text", text="pub const MAX_RUN_LENGTH: u16 = 1000;"),
    dict(kind="text", text="}"),
    imp("single.rs", "predictor::single::SingleContextPredictor", "impl SingleContextPredictor", "impl SingleContextPredictor", SINGLE),
    dict(kind="fn", file=D + "single.rs", name="quantize_distance", spec=dict(spec="ensures res <= 3")),
    dict(kind="fn", file=D + "single.rs", name="quantize_cost_trackers", spec=dict(spec="ensures res <= 5")),
    imp("chain.rs", "predictor::chain::ContextsChainPredictionMixer", "impl<'a> ContextsChainPredictionMixer<'a>", "impl ContextsChainPredictionMixer", CHAIN),
    imp("post_process.rs", "predictor::post_process::PredictionFinalizer", "impl<'a> PredictionFinalizer<'a>", "impl PredictionFinalizer", FINAL),
    dict(kind="fn", file=D + "post_process.rs", name="quantize_contexts_count", spec=dict(spec="ensures res <= 3")),
    dict(kind="struct", file=D + "mod.rs", name="Predictor"),
    dict(kind="text", text=LAST),
    imp("mod.rs", "predictor::Predictor", "impl<'a> Predictor<'a>", "impl Predictor", PRED, skip=["print_state"]),
]


def sub_indices(m):
    import re
    return "vec![%s]" % ", ".join(x[1:-1] for x in re.findall(r"\.with_sub_index\s*(%s)" % P1, m.group(1)))


def set_inputs(m):
    import re
    return "vec![%s]" % ", ".join("VxInput" + x for x in re.findall(r"mixer\.set_input(%s);" % P1, m.group(1)))


REWRITES = [
    (r"\bmatch (self|ctx_state) \{(\s*)&(?!mut)", r"match *\1 {\2&", "match on a reference with & patterns is a match on the place"),
    (r"&(ContextState::\w+ \{[^{}]*?)\bref (\w+)([^{}]*\}) => \{", r"\1\2: vx_\2\3 => {\nlet \2 = &vx_\2;", "ref x as a reference to a copy of x (plain data)"),
    (r"&(ContextState::\w+ \{[^{}]*\} =>)", r"\1", "(the same, its arms)"),
    (r"\b(ContextsChainPredictionMixer|PredictionFinalizer|Predictor|TreeHistorySource|PredictionStatistics)<'a>", r"\1", "the lifetime of the shared tables is dropped"),
    (r"&'a LookUpTables", "&'static LookUpTables", "the lifetime of the shared tables is dropped"),
    (r"\|indexer\|\s*indexer((?:\s*\.with_sub_index\s*%s)+)" % P1, sub_indices,
     "a closure that passes sub-indices to the indexer becomes the list of these values (the functions computing them have no effects)"),
    (r"\|mixer\|\s*\{((?:\s*mixer\.set_input%s;)+)\s*\}" % P1, set_inputs, "a closure that sets inputs of the mixer becomes the list of the arguments"),
    (r"setup_indexer\(&mut self\.indexer\)\s*\.get_array_index_and_reset\(\)", "{ vx_setup(&mut self.indexer, setup_indexer); self.indexer.get_array_index_and_reset() }",
     "calling the closure is passing the values of the list to the indexer"),
    (r"setup_indexer\(&mut self\.indexer\);", "vx_setup(&mut self.indexer, setup_indexer);", "(the same)"),
    (r"\badd_inputs\(mixer\);", "vx_inputs(mixer, add_inputs);", "calling the closure is setting the inputs of the list"),
    (r"<IdxSetup(?:, AddInputs)?>", "", "(types of these closures)"),
    (r"where IdxSetup: Fn\(&mut Idx\) -> &mut Idx(?:,\s*AddInputs: Fn\(&mut Mxr\) -> \(\))?", "", "(types of these closures)"),
    (r": IdxSetup\b", ": Vec<usize>", "(types of these closures)"),
    (r": AddInputs\b", ": Vec<VxInput>", "(types of these closures)"),
    (r"\|\|\s*SingleContextPredictor::(new_\w+_mixer)\(\)", r"SingleContextPredictor::\1", "|| f() as f"),
    (r"for \((\w+), (\w+)\) in ([\w.()]+)\.iter\(\)\.enumerate\(\) \{", r"let vx_s = \3; let vx_n = vx_s.len();\nfor \1 in 0..vx_n {\nlet \2 = &vx_s[\1];", "iteration over iter().enumerate() as the index loop it stands for"),
    (r"for _ in 0\.\.=(\w+)", r"for _ in 0..\1 + 1", "the inclusive range as the half-open one"),
    (r"Vec::with_capacity\(indexer\.get_array_size\(\)\);", "Vec::with_capacity(0); let vx_asked = indexer.get_array_size();", "the capacity asked for gets a name"),
    (r"let mut (single_context_predictors|edge_mixer_kits|node_mixer_kits) = Vec",
     lambda m: "let mut %s: Vec<%s> = Vec" % (m.group(1), dict(single_context_predictors="SingleContextPredictor", edge_mixer_kits="MixersWithIndexer<Mixer4, Indexer4>",
                                                              node_mixer_kits="MixersWithIndexer<Mixer3, Indexer5>")[m.group(1)]), "the type of a local is written down"),
    (r"mixers\.capacity\(\)", "vx_capacity(&mixers, vx_asked)", "Vec::with_capacity allocates exactly what was asked for (trusted)"),
    (r"let make_dimensions = \|extra_dimensions: Vec<usize>\| \{", "let make_dimensions = |extra_dimensions: Vec<usize>| -> (r: Vec<usize>) ensures r@ == seq![2usize, 3usize] + extra_dimensions@ {", "the local closure gets a contract"),
    (r"(\w+)\.extend\(extra_dimensions\.into_iter\(\)\)", r"vx_extend(&mut \1, extra_dimensions)", "std extend of a vector"),
    (r"cost_trackers\.extend\(cost_trackers_opt\.into_iter\(\)\)", "vx_extend_opt(&mut cost_trackers, cost_trackers_opt)", "std extend by an option"),
    (r"(\w+) == None\b", r"\1.is_none()", "comparison with None as is_none"),
    (r"\.expect\(PREDICT_UPDATE_PAIRING_MSG\)", ".unwrap()", "expect as unwrap"),
    (r"panic!\([^()]*\)", "vx_never()", "panic! as a call that must be unreachable"),
    (r"let make = \|contexts, precision\|\s*(AdaptiveProbabilityMap::new%s);" % P1, r"let make = |contexts: usize, precision: u8| -> (r: AdaptiveProbabilityMap) requires precision <= 2 ensures rows(&r) == contexts, fine(&r) == precision, refined(&r) is None { \1 };", "the local closure gets a contract"),
]
TARGET = dict(prelude=PRELUDE, units=UNITS, rewrites=REWRITES)
