"""C18: the brute-force and the hash-map history source report the statistics
of the definition, for every input, order limit and bit position."""
import window

DEFINITION = r'''
// ---- the state of one context ----------------------------------------------
#[verifier::external_body] pub struct LookUpTables { vx: () }
#[verifier::external_body] pub struct DeceleratingEstimatorRates { vx: () }
#[verifier::external_body] pub struct DeceleratingEstimatorCache { vx: () }
#[verifier::external_body] pub struct CostTrackersLut { vx: () }

pub uninterp spec fn rates_of(l: LookUpTables) -> DeceleratingEstimatorRates;
pub uninterp spec fn cache_of(l: LookUpTables) -> DeceleratingEstimatorCache;
pub uninterp spec fn costs_of(l: LookUpTables) -> CostTrackersLut;
// what the parts of a state do on a bit (proved in C09, C11, C12, C27)
pub uninterp spec fn est_next(e: DeceleratingEstimator, b: Bit, r: DeceleratingEstimatorRates) -> DeceleratingEstimator;
pub uninterp spec fn est_new(c: DeceleratingEstimatorCache, b: Bit, n: u16) -> DeceleratingEstimator;
pub uninterp spec fn recent_next(r: RecentBitsHistory, b: Bit) -> RecentBitsHistory;
pub uninterp spec fn recent_new(b: Bit, n: u16) -> RecentBitsHistory;
pub uninterp spec fn runs_next(r: BitsRunsTracker, b: Bit) -> BitsRunsTracker;
pub uninterp spec fn runs_new(b: Bit, n: u16) -> BitsRunsTracker;
pub uninterp spec fn cost_new(c: CostTrackersLut, n: u16) -> CostTracker;

impl LookUpTables {
    #[verifier::external_body]
    pub fn d_estimator_rates(&self) -> (res: &DeceleratingEstimatorRates) ensures *res == rates_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn d_estimator_cache(&self) -> (res: &DeceleratingEstimatorCache) ensures *res == cache_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn cost_trackers_lut(&self) -> (res: &CostTrackersLut) ensures *res == costs_of(*self) { unimplemented!() }
}
impl DeceleratingEstimatorCache {
    #[verifier::external_body]
    pub fn for_new_node(&self, b: Bit, n: u16) -> (res: DeceleratingEstimator) requires n <= 1000 ensures res == est_new(*self, b, n) { unimplemented!() }
}
impl CostTrackersLut {
    #[verifier::external_body]
    pub fn for_new_node(&self, n: u16) -> (res: CostTracker) ensures res == cost_new(*self, n) { unimplemented!() }
}
impl DeceleratingEstimator {
    #[verifier::external_body]
    pub fn update(&mut self, b: Bit, r: &DeceleratingEstimatorRates) ensures *final(self) == est_next(*old(self), b, *r) { unimplemented!() }
}
impl RecentBitsHistory {
    #[verifier::external_body]
    pub fn updated(&self, b: Bit) -> (res: Self) ensures res == recent_next(*self, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn for_new_node(b: Bit, n: u16) -> (res: Self) ensures res == recent_new(b, n) { unimplemented!() }
}
impl BitsRunsTracker {
    #[verifier::external_body]
    pub fn updated(&self, b: Bit) -> (res: Self) ensures res == runs_next(*self, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn for_new_node(b: Bit, n: u16) -> (res: Self) ensures res == runs_new(b, n) { unimplemented!() }
}

/// A state a context can be in.
pub open spec fn valid(s: ContextState) -> bool {
    s matches ContextState::ForEdge { occurrence_count, .. } ==> 1 <= occurrence_count <= 1000
}
pub open spec fn first(d: usize, b: Bit) -> ContextState {
    ContextState::ForEdge { last_occurrence_distance: d, occurrence_count: 1, repeated_bit: b }
}
pub open spec fn next(l: LookUpTables, s: ContextState, d: usize, b: Bit, c: Option<CostTrackers>) -> ContextState {
    match s {
        ContextState::ForNode { probability_estimator, recent_bits, bits_runs, .. } => ContextState::ForNode {
            last_occurrence_distance: d,
            probability_estimator: est_next(probability_estimator, b, rates_of(l)),
            recent_bits: recent_next(recent_bits, b),
            bits_runs: runs_next(bits_runs, b),
            cost_trackers: c->0,
        },
        ContextState::ForEdge { occurrence_count, repeated_bit, .. } => if repeated_bit == b {
            ContextState::ForEdge { last_occurrence_distance: d, repeated_bit,
                occurrence_count: if occurrence_count < 1000 { (occurrence_count + 1) as u16 } else { 1000 } }
        } else {
            ContextState::ForNode {
                last_occurrence_distance: d,
                probability_estimator: est_new(cache_of(l), b, occurrence_count),
                recent_bits: recent_new(b, occurrence_count),
                bits_runs: runs_new(b, occurrence_count),
                cost_trackers: CostTrackers { stationary: cost_new(costs_of(l), occurrence_count), non_stationary: cost_new(costs_of(l), occurrence_count) },
            }
        },
    }
}

// ---- the definition of the statistics ---------------------------------------
pub open spec fn bit_at(c: Seq<u8>, i: int, k: int) -> Bit { if bit_of(c[i], k) { Bit::One } else { Bit::Zero } }
/// Position p is in the same context as position q: `n` whole bytes and the
/// bits above `bit` of the next one are the same.
pub open spec fn alike(c: Seq<u8>, p: int, q: int, bit: int, n: int) -> bool {
    c.subrange(p, p + n) == c.subrange(q, q + n)
    && forall|b: int| bit < b <= 7 ==> bit_of(c[p + n], b) == #[trigger] bit_of(c[q + n], b)
}
pub open spec fn default_costs(s: ContextState) -> Option<CostTrackers> {
    if s is ForNode { Some(CostTrackers::DEFAULT) } else { None }
}
/// The statistics of the context of position q after the occurrences before
/// position `upto`.
pub open spec fn fold(l: LookUpTables, c: Seq<u8>, q: int, bit: int, n: int, upto: int) -> Option<ContextState>
    decreases upto
{
    if upto <= 0 { None } else {
        let before = fold(l, c, q, bit, n, upto - 1);
        let p = upto - 1;
        if alike(c, p, q, bit, n) {
            let (d, b) = ((q - p) as usize, bit_at(c, p + n, bit));
            Some(match before { None => first(d, b), Some(s) => next(l, s, d, b, default_costs(s)) })
        } else { before }
    }
}
/// What is to be reported for context order n, the last byte of `c` being
/// the unfinished one.
pub open spec fn report(l: LookUpTables, c: Seq<u8>, bit: int, n: int) -> Option<ContextState> {
    fold(l, c, c.len() - 1 - n, bit, n, c.len() - 1 - n)
}
/// The reports of orders n and up to the limit, up to the first order that
/// has not occurred.
pub open spec fn reports(l: LookUpTables, c: Seq<u8>, bit: int, n: int, limit: int) -> Seq<ContextState>
    decreases limit + 1 - n
{
    if n > limit || n >= c.len() { Seq::empty() } else {
        match report(l, c, bit, n) {
            None => Seq::empty(),
            Some(s) => seq![s] + reports(l, c, bit, n + 1, limit),
        }
    }
}
/// `after` is `before` with one bit of the last byte stored.
pub open spec fn stored(before: Seq<u8>, after: Seq<u8>, k: int, b: Bit) -> bool {
    &&& before.len() > 0 && after == before.update(before.len() - 1, after[before.len() - 1])
    &&& forall|j: u8| j < 8 ==> #[trigger] bit_of(after[before.len() - 1], j as int) == (if j == k { b is One } else { bit_of(before[before.len() - 1], j as int) })
}
/// `s.iter().all(f)`
fn vx_all<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],))
    ensures r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((&#[trigger] s@[i],), true),
        !r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((&#[trigger] s@[i],), false)
{
    let mut i = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|j: int| 0 <= j < s@.len() ==> f.requires((&#[trigger] s@[j],)),
            forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] s@[j],), true)
        decreases s@.len() - i
    {
        if !f(&s[i]) { return false; }
        i += 1;
    }
    true
}
pub proof fn fold_valid(l: LookUpTables, c: Seq<u8>, q: int, bit: int, n: int, upto: int)
    ensures fold(l, c, q, bit, n, upto) matches Some(s) ==> valid(s)
    decreases upto
{
    if upto > 0 { fold_valid(l, c, q, bit, n, upto - 1); }
}
'''

NAIVE = r'''
impl NaiveHistorySource {
    /// Between bytes (bit_index -1) or within the last byte.
    pub open spec fn wf(&self) -> bool {
        &&& self.input.wf() && self.input.start.value == 0
        &&& -1 <= self.bit_index <= 7
        &&& self.bit_index >= 0 ==> self.input.size > 0
        &&& self.max_order < usize::MAX
    }
}
'''
N = {
    "new": dict(spec="""requires 0 < max_window_size <= isize::MAX as int, max_order < usize::MAX
ensures res.wf(), res.bit_index == -1, res.input.content() == Seq::<u8>::empty(), res.max_order == max_order, res.luts == luts, res.input.max_size == max_window_size"""),
    "start_new_byte": dict(spec="""requires old(self).wf(), old(self).bit_index == -1, old(self).input.size < old(self).input.max_size
ensures final(self).wf(), final(self).bit_index == 7, final(self).input.content() == old(self).input.content().push(0u8),
    final(self).luts == old(self).luts, final(self).max_order == old(self).max_order, final(self).input.max_size == old(self).input.max_size"""),
    "process_input_bit": dict(spec="""requires old(self).wf(), old(self).bit_index >= 0, forall|i: int| 0 <= i < new_cost_trackers@.len() ==> new_cost_trackers@[i] == CostTrackers::DEFAULT
ensures final(self).wf(), final(self).bit_index == old(self).bit_index - 1, final(self).luts == old(self).luts, final(self).max_order == old(self).max_order,
    final(self).input.max_size == old(self).input.max_size,
    stored(old(self).input.content(), final(self).input.content(), old(self).bit_index as int, input_bit)"""),
    "gather_history_states": dict(spec="""requires self.wf(), self.bit_index >= 0
ensures final(bit_histories).items@ == old(bit_histories).items@ + reports(*self.luts, self.input.content(), self.bit_index as int, 0, self.max_order as int)""",
        loops=[dict(inv="""
invariant_except_break order < self.input.size,
    bit_histories.items@ + reports(*self.luts, self.input.content(), self.bit_index as int, order as int, self.max_order as int)
        =~= old(bit_histories).items@ + reports(*self.luts, self.input.content(), self.bit_index as int, 0, self.max_order as int),
invariant self.wf(), self.bit_index >= 0,
ensures bit_histories.items@ =~= old(bit_histories).items@ + reports(*self.luts, self.input.content(), self.bit_index as int, 0, self.max_order as int),
"""), dict(inv="""
invariant self.wf(), self.bit_index >= 0, order < self.input.size, stop_search_position == self.input.size - 1 - order,
    last_context_state_opt == fold(*self.luts, self.input.content(), stop_search_position as int, self.bit_index as int, order as int, scanned_index as int),
""", begin="""proof {
    let stop = stop_search_position as int;
    fold_valid(*self.luts, self.input.content(), stop, self.bit_index as int, order as int, scanned_index as int);
    prefixes(self.input, scanned_index as int, stop, self.bit_index as int, order as int);
    positions(self.input, scanned_index + order);
}
""")]),
}

FAT = r"""
use std::collections::HashMap;
broadcast use vstd::std_specs::hash::group_hash_axioms;

/// Assumed contracts of std's HashMap and hashing: hashing is a function of
/// the map's seed and of what is written; `entry(k).or_insert(Vec::new())`.
#[verifier::external_body] pub struct VxHasher { vx: () }
pub uninterp spec fn seed_of(m: HashMap<u64, Vec<ContextState>>) -> int;
pub uninterp spec fn digest(seed: int, log: Seq<(bool, u16)>) -> u64;
impl VxHasher {
    pub uninterp spec fn seed(&self) -> int;
    pub uninterp spec fn log(&self) -> Seq<(bool, u16)>;
    #[verifier::external_body]
    pub fn write_u8(&mut self, v: u8) ensures final(self).seed() == old(self).seed(), final(self).log() == old(self).log().push((false, v as u16)) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u16(&mut self, v: u16) ensures final(self).seed() == old(self).seed(), final(self).log() == old(self).log().push((true, v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self) -> (res: u64) ensures res == digest(self.seed(), self.log()) { unimplemented!() }
}
#[verifier::external_body]
fn vx_hasher(m: &HashMap<u64, Vec<ContextState>>) -> (res: VxHasher) ensures res.seed() == seed_of(*m), res.log() == Seq::<(bool, u16)>::empty() { unimplemented!() }
#[verifier::external_body]
fn vx_empty_maps(n: usize) -> (res: Vec<HashMap<u64, Vec<ContextState>>>)
    ensures res@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] res@[i])@ == Map::<u64, Vec<ContextState>>::empty() { unimplemented!() }
pub open spec fn entries(m: Map<u64, Vec<ContextState>>, k: u64) -> Seq<ContextState> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }
#[verifier::external_body]
fn vx_entry_or_new(m: &mut HashMap<u64, Vec<ContextState>>, k: u64) -> (res: &mut Vec<ContextState>)
    ensures (*res)@ == entries(old(m)@, k),
        final(m)@ == old(m)@.insert(k, *final(res)), seed_of(*final(m)) == seed_of(*old(m)) { unimplemented!() }

pub open spec fn last(s: ContextState) -> usize {
    match s { ContextState::ForEdge { last_occurrence_distance, .. } => last_occurrence_distance,
              ContextState::ForNode { last_occurrence_distance, .. } => last_occurrence_distance }
}
pub open spec fn relast(s: ContextState, d: usize) -> ContextState {
    match s { ContextState::ForEdge { occurrence_count, repeated_bit, .. } => ContextState::ForEdge { last_occurrence_distance: d, occurrence_count, repeated_bit },
              ContextState::ForNode { probability_estimator, recent_bits, bits_runs, cost_trackers, .. } => ContextState::ForNode { last_occurrence_distance: d, probability_estimator, recent_bits, bits_runs, cost_trackers } }
}
/// The fold of the definition with places in place of distances.
pub open spec fn ifold(l: LookUpTables, c: Seq<u8>, q: int, bit: int, n: int, upto: int) -> Option<ContextState>
    decreases upto
{
    if upto <= 0 { None } else {
        let before = ifold(l, c, q, bit, n, upto - 1);
        let p = upto - 1;
        if alike(c, p, q, bit, n) {
            let b = bit_at(c, p + n, bit);
            Some(match before { None => first(p as usize, b), Some(s) => next(l, s, p as usize, b, default_costs(s)) })
        } else { before }
    }
}
pub proof fn ifold_fold(l: LookUpTables, c: Seq<u8>, q: int, bit: int, n: int, upto: int)
    requires upto <= q <= usize::MAX
    ensures
        ifold(l, c, q, bit, n, upto) matches Some(s) ==> valid(s) && 0 <= last(s) < upto && alike(c, last(s) as int, q, bit, n),
        fold(l, c, q, bit, n, upto) == (match ifold(l, c, q, bit, n, upto) { None => None, Some(s) => Some(relast(s, (q - last(s)) as usize)) }),
    decreases upto
{
    if upto > 0 { ifold_fold(l, c, q, bit, n, upto - 1); }
}
pub proof fn ifold_last(l: LookUpTables, c: Seq<u8>, q: int, bit: int, n: int, upto: int)
    requires upto <= usize::MAX
    ensures
        ifold(l, c, q, bit, n, upto) matches Some(s) ==> valid(s) && 0 <= last(s) < upto && alike(c, last(s) as int, q, bit, n),
        forall|p: int| 0 <= p < upto && #[trigger] alike(c, p, q, bit, n) ==> ifold(l, c, q, bit, n, upto) is Some && p <= last(ifold(l, c, q, bit, n, upto)->0),
    decreases upto
{
    if upto > 0 { ifold_last(l, c, q, bit, n, upto - 1); }
}
pub proof fn alike_twist(c: Seq<u8>, p: int, q: int, r: int, bit: int, n: int)
    requires alike(c, q, r, bit, n)
    ensures alike(c, p, q, bit, n) == alike(c, p, r, bit, n), alike(c, q, p, bit, n) == alike(c, p, q, bit, n)
{
    assert forall|b: int| bit < b <= 7 implies bit_of(c[q + n], b) == #[trigger] bit_of(c[r + n], b) by {}
    if alike(c, p, q, bit, n) {
        assert forall|b: int| bit < b <= 7 implies bit_of(c[p + n], b) == #[trigger] bit_of(c[r + n], b) by { assert(bit_of(c[p + n], b) == bit_of(c[q + n], b)); }
        assert forall|b: int| bit < b <= 7 implies bit_of(c[q + n], b) == #[trigger] bit_of(c[p + n], b) by { assert(bit_of(c[p + n], b) == bit_of(c[q + n], b)); }
    }
    if alike(c, p, r, bit, n) {
        assert forall|b: int| bit < b <= 7 implies bit_of(c[p + n], b) == #[trigger] bit_of(c[q + n], b) by { assert(bit_of(c[p + n], b) == bit_of(c[r + n], b)); assert(bit_of(c[q + n], b) == bit_of(c[r + n], b)); }
    }
    if alike(c, q, p, bit, n) {
        assert forall|b: int| bit < b <= 7 implies bit_of(c[p + n], b) == #[trigger] bit_of(c[q + n], b) by { assert(bit_of(c[q + n], b) == bit_of(c[p + n], b)); }
    }
}
pub proof fn ifold_class(l: LookUpTables, c: Seq<u8>, q: int, r: int, bit: int, n: int, upto: int)
    requires alike(c, q, r, bit, n)
    ensures ifold(l, c, q, bit, n, upto) == ifold(l, c, r, bit, n, upto)
    decreases upto
{
    if upto > 0 { alike_twist(c, upto - 1, q, r, bit, n); ifold_class(l, c, q, r, bit, n, upto - 1); }
}
/// The two inputs are the same as far as the first `upto` places see them.
pub open spec fn agree(c: Seq<u8>, d: Seq<u8>, bit: int, n: int, upto: int) -> bool {
    upto > 0 ==> {
        &&& upto + n <= c.len() && upto + n <= d.len()
        &&& forall|i: int| 0 <= i < upto + n - 1 ==> c[i] == #[trigger] d[i]
        &&& forall|b: int| bit <= b <= 7 ==> bit_of(c[upto + n - 1], b) == #[trigger] bit_of(d[upto + n - 1], b)
    }
}
pub proof fn agree_bits(c: Seq<u8>, d: Seq<u8>, bit: int, n: int, upto: int, p: int, b: int)
    requires agree(c, d, bit, n, upto), 0 <= p < upto, 0 <= n, bit <= b <= 7
    ensures bit_of(c[p + n], b) == bit_of(d[p + n], b)
{
    if p + n < upto + n - 1 { assert(c[p + n] == d[p + n]); } else { assert(bit_of(c[upto + n - 1], b) == bit_of(d[upto + n - 1], b)); }
}
pub proof fn agree_alike(c: Seq<u8>, d: Seq<u8>, bit: int, n: int, upto: int, p: int, q: int)
    requires agree(c, d, bit, n, upto), 0 <= p < upto, 0 <= q < upto, 0 <= n, 0 <= bit <= 7
    ensures alike(c, p, q, bit, n) == alike(d, p, q, bit, n)
{
    assert(c.subrange(p, p + n) =~= d.subrange(p, p + n));
    assert(c.subrange(q, q + n) =~= d.subrange(q, q + n));
    assert forall|b: int| bit <= b <= 7 implies #[trigger] bit_of(c[p + n], b) == bit_of(d[p + n], b) by { agree_bits(c, d, bit, n, upto, p, b); }
    assert forall|b: int| bit <= b <= 7 implies #[trigger] bit_of(c[q + n], b) == bit_of(d[q + n], b) by { agree_bits(c, d, bit, n, upto, q, b); }
    if alike(c, p, q, bit, n) {
        assert forall|b: int| bit < b <= 7 implies bit_of(d[p + n], b) == #[trigger] bit_of(d[q + n], b) by { assert(bit_of(c[p + n], b) == bit_of(c[q + n], b)); agree_bits(c, d, bit, n, upto, p, b); agree_bits(c, d, bit, n, upto, q, b); }
    }
    if alike(d, p, q, bit, n) {
        assert forall|b: int| bit < b <= 7 implies bit_of(c[p + n], b) == #[trigger] bit_of(c[q + n], b) by { assert(bit_of(d[p + n], b) == bit_of(d[q + n], b)); agree_bits(c, d, bit, n, upto, p, b); agree_bits(c, d, bit, n, upto, q, b); }
    }
}
pub proof fn agree_fold(l: LookUpTables, c: Seq<u8>, d: Seq<u8>, bit: int, n: int, upto: int, q: int, k: int)
    requires agree(c, d, bit, n, upto), 0 <= q < upto, k <= upto, 0 <= n, 0 <= bit <= 7
    ensures ifold(l, c, q, bit, n, k) == ifold(l, d, q, bit, n, k)
    decreases k
{
    if k > 0 {
        agree_fold(l, c, d, bit, n, upto, q, k - 1);
        agree_alike(c, d, bit, n, upto, k - 1, q);
        agree_bits(c, d, bit, n, upto, k - 1, bit);
    }
}
/// What is hashed for the context of place p.
pub open spec fn hlog(c: Seq<u8>, p: int, bit: int, n: int) -> Seq<(bool, u16)> {
    Seq::new(n as nat, |i: int| (false, c[p + i] as u16)).push((true, top(c[p + n], bit)))
}
pub open spec fn top(x: u8, bit: int) -> u16 { ((256u16 + x as u16) as u16) >> ((bit + 1) as u16) }
pub proof fn tops(x: u8, y: u8, bit: int)
    requires 0 <= bit <= 7, forall|b: int| bit < b <= 7 ==> bit_of(x, b) == #[trigger] bit_of(y, b)
    ensures top(x, bit) == top(y, bit)
{
    let k = bit as u16;
    assert(1 <= bit + 1 <= 8);
    let (b1, b2, b3, b4, b5, b6, b7) = (bit_of(x, 1) == bit_of(y, 1), bit_of(x, 2) == bit_of(y, 2), bit_of(x, 3) == bit_of(y, 3), bit_of(x, 4) == bit_of(y, 4), bit_of(x, 5) == bit_of(y, 5), bit_of(x, 6) == bit_of(y, 6), bit_of(x, 7) == bit_of(y, 7));
    assert(k <= 7
        && (k < 1 ==> ((x >> 1u8) & 1u8 == 1u8) == ((y >> 1u8) & 1u8 == 1u8)) && (k < 2 ==> ((x >> 2u8) & 1u8 == 1u8) == ((y >> 2u8) & 1u8 == 1u8))
        && (k < 3 ==> ((x >> 3u8) & 1u8 == 1u8) == ((y >> 3u8) & 1u8 == 1u8)) && (k < 4 ==> ((x >> 4u8) & 1u8 == 1u8) == ((y >> 4u8) & 1u8 == 1u8))
        && (k < 5 ==> ((x >> 5u8) & 1u8 == 1u8) == ((y >> 5u8) & 1u8 == 1u8)) && (k < 6 ==> ((x >> 6u8) & 1u8 == 1u8) == ((y >> 6u8) & 1u8 == 1u8))
        && (k < 7 ==> ((x >> 7u8) & 1u8 == 1u8) == ((y >> 7u8) & 1u8 == 1u8))
        ==> ((add(256u16, x as u16)) >> add(k, 1u16)) == ((add(256u16, y as u16)) >> add(k, 1u16))) by (bit_vector);
}
pub proof fn same_hash(c: Seq<u8>, p: int, q: int, bit: int, n: int)
    requires alike(c, p, q, bit, n), 0 <= bit <= 7, 0 <= n, 0 <= p, 0 <= q, p + n < c.len(), q + n < c.len()
    ensures hlog(c, p, bit, n) == hlog(c, q, bit, n)
{
    let (a, b) = (c.subrange(p, p + n), c.subrange(q, q + n));
    assert forall|i: int| 0 <= i < n implies (false, c[p + i] as u16) == #[trigger] hlog(c, q, bit, n)[i] by { assert(a[i] == c[p + i] && b[i] == c[q + i]); }
    tops(c[p + n], c[q + n], bit);
    assert(hlog(c, p, bit, n) =~= hlog(c, q, bit, n));
}
pub proof fn agree_hash(c: Seq<u8>, d: Seq<u8>, bit: int, n: int, upto: int, p: int)
    requires agree(c, d, bit, n, upto), 0 <= p < upto, 0 <= n, 0 <= bit <= 7
    ensures hlog(c, p, bit, n) == hlog(d, p, bit, n)
{
    assert forall|i: int| 0 <= i < n implies (false, c[p + i] as u16) == #[trigger] hlog(d, p, bit, n)[i] by { assert(c[p + i] == d[p + i]); }
    assert forall|b: int| bit < b <= 7 implies bit_of(c[p + n], b) == #[trigger] bit_of(d[p + n], b) by { agree_bits(c, d, bit, n, upto, p, b); }
    tops(c[p + n], d[p + n], bit);
    assert(hlog(c, p, bit, n) =~= hlog(d, p, bit, n));
}

/// Invariant of one map: the first `upto` places are counted in it.
pub open spec fn entry_ok(l: LookUpTables, c: Seq<u8>, seed: int, k: u64, s: ContextState, bit: int, n: int, upto: int) -> bool {
    &&& 0 <= last(s) < upto
    &&& digest(seed, hlog(c, last(s) as int, bit, n)) == k
    &&& ifold(l, c, last(s) as int, bit, n, upto) == Some(s)
}
pub open spec fn known(c: Seq<u8>, v: Seq<ContextState>, p: int, bit: int, n: int) -> bool {
    exists|i: int| 0 <= i < v.len() && alike(c, last(#[trigger] v[i]) as int, p, bit, n)
}
pub open spec fn cell(l: LookUpTables, c: Seq<u8>, m: HashMap<u64, Vec<ContextState>>, bit: int, n: int, upto: int) -> bool {
    &&& upto <= usize::MAX && (upto > 0 ==> upto + n <= c.len()) && 0 <= n && 0 <= bit <= 7
    &&& forall|k: u64, i: int| m@.contains_key(k) && 0 <= i < m@[k]@.len() ==> entry_ok(l, c, seed_of(m), k, #[trigger] m@[k]@[i], bit, n, upto)
    &&& forall|k: u64, i: int, j: int| m@.contains_key(k) && 0 <= i < j < m@[k]@.len() ==> !alike(c, last(#[trigger] m@[k]@[i]) as int, last(#[trigger] m@[k]@[j]) as int, bit, n)
    &&& forall|p: int| 0 <= p < upto ==> m@.contains_key(digest(seed_of(m), #[trigger] hlog(c, p, bit, n))) && known(c, m@[digest(seed_of(m), hlog(c, p, bit, n))]@, p, bit, n)
}
pub proof fn agree_cell(l: LookUpTables, c: Seq<u8>, d: Seq<u8>, m: HashMap<u64, Vec<ContextState>>, bit: int, n: int, upto: int)
    requires cell(l, c, m, bit, n, upto), agree(c, d, bit, n, upto)
    ensures cell(l, d, m, bit, n, upto)
{
    assert forall|k: u64, i: int| m@.contains_key(k) && 0 <= i < m@[k]@.len() implies entry_ok(l, d, seed_of(m), k, #[trigger] m@[k]@[i], bit, n, upto) by {
        let s = m@[k]@[i];
        assert(entry_ok(l, c, seed_of(m), k, s, bit, n, upto));
        agree_hash(c, d, bit, n, upto, last(s) as int);
        agree_fold(l, c, d, bit, n, upto, last(s) as int, upto);
    }
    assert forall|k: u64, i: int, j: int| m@.contains_key(k) && 0 <= i < j < m@[k]@.len() implies !alike(d, last(#[trigger] m@[k]@[i]) as int, last(#[trigger] m@[k]@[j]) as int, bit, n) by {
        assert(entry_ok(l, c, seed_of(m), k, m@[k]@[i], bit, n, upto) && entry_ok(l, c, seed_of(m), k, m@[k]@[j], bit, n, upto));
        agree_alike(c, d, bit, n, upto, last(m@[k]@[i]) as int, last(m@[k]@[j]) as int);
    }
    assert forall|p: int| 0 <= p < upto implies m@.contains_key(digest(seed_of(m), #[trigger] hlog(d, p, bit, n))) && known(d, m@[digest(seed_of(m), hlog(d, p, bit, n))]@, p, bit, n) by {
        agree_hash(c, d, bit, n, upto, p);
        let k = digest(seed_of(m), hlog(c, p, bit, n));
        let v = m@[k]@;
        let i = choose|i: int| 0 <= i < v.len() && alike(c, last(#[trigger] v[i]) as int, p, bit, n);
        assert(entry_ok(l, c, seed_of(m), k, m@[k]@[i], bit, n, upto));
        agree_alike(c, d, bit, n, upto, last(v[i]) as int, p);
    }
}
/// Counting place `upto`: an entry of its context is there and becomes the
/// next state, or there is none and one is added.
pub proof fn count_place(l: LookUpTables, c: Seq<u8>, m: HashMap<u64, Vec<ContextState>>, m2: HashMap<u64, Vec<ContextState>>, v2: Vec<ContextState>, bit: int, n: int, upto: int, at: Option<int>)
    requires
        cell(l, c, m, bit, n, upto), 0 <= upto, upto + n < c.len(), c.len() < usize::MAX, seed_of(m2) == seed_of(m),
        m2@ == m@.insert(digest(seed_of(m), hlog(c, upto, bit, n)), v2),
        ({
            let k = digest(seed_of(m), hlog(c, upto, bit, n));
            let v = entries(m@, k);
            match at {
                Some(i) => 0 <= i < v.len() && alike(c, upto, last(v[i]) as int, bit, n)
                    && v2@ == v.update(i, next(l, v[i], upto as usize, bit_at(c, upto + n, bit), default_costs(v[i]))),
                None => (forall|i: int| 0 <= i < v.len() ==> !alike(c, upto, last(#[trigger] v[i]) as int, bit, n))
                    && v2@ == v.push(first(upto as usize, bit_at(c, upto + n, bit))),
            }
        })
    ensures cell(l, c, m2, bit, n, upto + 1)
{
    let seed = seed_of(m);
    let h = digest(seed, hlog(c, upto, bit, n));
    let v = entries(m@, h);
    let x = match at { Some(i) => i, None => v.len() as int };
    alike_twist(c, upto, upto, upto, bit, n);
    // the new entry
    assert(ifold(l, c, upto, bit, n, upto + 1) == Some(v2@[x]) && last(v2@[x]) == upto) by {
        match at {
            Some(i) => {
                assert(entry_ok(l, c, seed, h, m@[h]@[i], bit, n, upto));
                ifold_class(l, c, upto, last(v[i]) as int, bit, n, upto);
            }
            None => {
                ifold_last(l, c, upto, bit, n, upto);
                if ifold(l, c, upto, bit, n, upto) is Some {
                    let p = last(ifold(l, c, upto, bit, n, upto)->0) as int;
                    same_hash(c, p, upto, bit, n);
                    assert(hlog(c, p, bit, n) == hlog(c, upto, bit, n));
                    let i = choose|i: int| 0 <= i < v.len() && alike(c, last(#[trigger] v[i]) as int, p, bit, n);
                    alike_twist(c, last(v[i]) as int, p, upto, bit, n);
                    alike_twist(c, upto, last(v[i]) as int, upto, bit, n);
                }
            }
        }
    }
    // an old entry, not of this context, does not see the new place
    assert forall|k: u64, i: int| m@.contains_key(k) && 0 <= i < m@[k]@.len() && !(k == h && i == x) implies
        entry_ok(l, c, seed, k, #[trigger] m@[k]@[i], bit, n, upto + 1) && !alike(c, last(m@[k]@[i]) as int, upto, bit, n) by {
        let s = m@[k]@[i];
        assert(entry_ok(l, c, seed, k, s, bit, n, upto));
        if alike(c, last(s) as int, upto, bit, n) {
            same_hash(c, last(s) as int, upto, bit, n);
            assert(k == h);
            alike_twist(c, upto, last(s) as int, upto, bit, n);
            match at {
                Some(j) => {
                    alike_twist(c, last(s) as int, upto, last(v[j]) as int, bit, n);
                    if i < j { assert(!alike(c, last(m@[h]@[i]) as int, last(m@[h]@[j]) as int, bit, n)); }
                    else { assert(!alike(c, last(m@[h]@[j]) as int, last(m@[h]@[i]) as int, bit, n));
                        alike_twist(c, last(v[j]) as int, last(s) as int, last(v[j]) as int, bit, n); }
                    assert(false);
                }
                None => { assert(!alike(c, upto, last(v[i]) as int, bit, n)); assert(false); }
            }
        }
        if alike(c, upto, last(s) as int, bit, n) { alike_twist(c, last(s) as int, upto, last(s) as int, bit, n); }
    }
    assert forall|k: u64, i: int| m2@.contains_key(k) && 0 <= i < m2@[k]@.len() implies entry_ok(l, c, seed, k, #[trigger] m2@[k]@[i], bit, n, upto + 1) by {
        if k == h && i == x { } else { assert(m2@[k]@[i] == m@[k]@[i]); }
    }
    assert forall|k: u64, i: int, j: int| m2@.contains_key(k) && 0 <= i < j < m2@[k]@.len() implies !alike(c, last(#[trigger] m2@[k]@[i]) as int, last(#[trigger] m2@[k]@[j]) as int, bit, n) by {
        if k == h && i == x { assert(m2@[k]@[j] == m@[k]@[j]); let q = last(m@[k]@[j]) as int; if alike(c, upto, q, bit, n) { alike_twist(c, q, upto, q, bit, n); } }
        else if k == h && j == x { assert(m2@[k]@[i] == m@[k]@[i]); }
        else { assert(m2@[k]@[i] == m@[k]@[i] && m2@[k]@[j] == m@[k]@[j]); }
    }
    assert forall|p: int| 0 <= p < upto + 1 implies m2@.contains_key(digest(seed, #[trigger] hlog(c, p, bit, n))) && known(c, m2@[digest(seed, hlog(c, p, bit, n))]@, p, bit, n) by {
        let k = digest(seed, hlog(c, p, bit, n));
        if p == upto { assert(alike(c, last(m2@[k]@[x]) as int, p, bit, n)); }
        else {
            assert(m@.contains_key(k));
            let w = m@[k]@;
            let i = choose|i: int| 0 <= i < w.len() && alike(c, last(#[trigger] w[i]) as int, p, bit, n);
            if k == h && i == x {
                // that entry is the one of the new place
                alike_twist(c, p, last(v[x]) as int, upto, bit, n);
                alike_twist(c, p, last(w[i]) as int, p, bit, n);
                assert(alike(c, last(m2@[k]@[x]) as int, p, bit, n));
            } else { assert(m2@[k]@[i] == w[i]); }
        }
    }
}

/// What the entries with the hash of the unfinished context say.
pub proof fn lookup(l: LookUpTables, c: Seq<u8>, m: HashMap<u64, Vec<ContextState>>, bit: int, n: int)
    requires cell(l, c, m, bit, n, c.len() - 1 - n), n < c.len() <= usize::MAX
    ensures ({
        let q = c.len() - 1 - n;
        let v = entries(m@, digest(seed_of(m), hlog(c, q, bit, n)));
        &&& forall|i: int| 0 <= i < v.len() ==> 0 <= last(#[trigger] v[i]) < q && valid(v[i])
        &&& forall|i: int| 0 <= i < v.len() && alike(c, q, last(#[trigger] v[i]) as int, bit, n) ==> report(l, c, bit, n) == Some(relast(v[i], (q - last(v[i])) as usize))
        &&& (forall|i: int| 0 <= i < v.len() ==> !alike(c, q, last(#[trigger] v[i]) as int, bit, n)) ==> report(l, c, bit, n) is None
    })
{
    let q = c.len() - 1 - n;
    let h = digest(seed_of(m), hlog(c, q, bit, n));
    let v = entries(m@, h);
    assert forall|i: int| 0 <= i < v.len() implies 0 <= last(#[trigger] v[i]) < q && valid(v[i])
        && (alike(c, q, last(v[i]) as int, bit, n) ==> report(l, c, bit, n) == Some(relast(v[i], (q - last(v[i])) as usize))) by {
        let s = m@[h]@[i];
        assert(entry_ok(l, c, seed_of(m), h, s, bit, n, q));
        ifold_last(l, c, last(s) as int, bit, n, q);
        if alike(c, q, last(s) as int, bit, n) {
            ifold_class(l, c, q, last(s) as int, bit, n, q);
            ifold_fold(l, c, q, bit, n, q);
        }
    }
    if report(l, c, bit, n) is Some {
        ifold_fold(l, c, q, bit, n, q);
        let p = last(ifold(l, c, q, bit, n, q)->0) as int;
        same_hash(c, p, q, bit, n);
        assert(hlog(c, p, bit, n) == hlog(c, q, bit, n));
        let i = choose|i: int| 0 <= i < v.len() && alike(c, last(#[trigger] v[i]) as int, p, bit, n);
        alike_twist(c, last(v[i]) as int, p, q, bit, n);
        alike_twist(c, q, last(v[i]) as int, q, bit, n);
        alike_twist(c, q, q, q, bit, n);
        assert(alike(c, q, last(v[i]) as int, bit, n));
    }
}
/// Storing a bit changes nothing about the contexts of its place.
pub proof fn stored_same(c: Seq<u8>, d: Seq<u8>, bit: int, n: int, b: Bit)
    requires stored(c, d, bit, b), 0 <= bit <= 7, 0 <= n < c.len()
    ensures
        d.len() == c.len(), bit_at(d, c.len() - 1, bit) == b,
        hlog(c, c.len() - 1 - n, bit, n) == hlog(d, c.len() - 1 - n, bit, n),
        forall|p: int| 0 <= p < c.len() - 1 - n ==> #[trigger] alike(c, c.len() - 1 - n, p, bit, n) == alike(d, c.len() - 1 - n, p, bit, n),
{
    let q = c.len() - 1 - n;
    let e = c.len() - 1;
    assert forall|j: int| bit < j <= 7 implies bit_of(c[e], j) == #[trigger] bit_of(d[e], j) by { assert(bit_of(d[e], (j as u8) as int) == bit_of(c[e], j)); }
    assert(bit_of(d[e], (bit as u8) as int) == (b is One));
    tops(c[e], d[e], bit);
    assert(hlog(c, q, bit, n) =~= hlog(d, q, bit, n));
    assert forall|p: int| 0 <= p < q implies #[trigger] alike(c, q, p, bit, n) == alike(d, q, p, bit, n) by {
        assert(c.subrange(p, p + n) =~= d.subrange(p, p + n));
        assert(c.subrange(q, q + n) =~= d.subrange(q, q + n));
        assert(c[p + n] == d[p + n]);
        if alike(c, q, p, bit, n) {
            assert forall|j: int| bit < j <= 7 implies bit_of(d[q + n], j) == #[trigger] bit_of(d[p + n], j) by { assert(bit_of(c[q + n], j) == bit_of(c[p + n], j)); assert(bit_of(c[e], j) == bit_of(d[e], j)); }
        }
        if alike(d, q, p, bit, n) {
            assert forall|j: int| bit < j <= 7 implies bit_of(c[q + n], j) == #[trigger] bit_of(c[p + n], j) by { assert(bit_of(d[q + n], j) == bit_of(d[p + n], j)); assert(bit_of(c[e], j) == bit_of(d[e], j)); }
        }
    }
}

pub proof fn empty_cell(l: LookUpTables, c: Seq<u8>, d: Seq<u8>, m: HashMap<u64, Vec<ContextState>>, bit: int, n: int, u: int, v: int)
    requires cell(l, c, m, bit, n, u), u <= 0, v <= 0
    ensures cell(l, d, m, bit, n, v)
{
    assert forall|k: u64, i: int| m@.contains_key(k) && 0 <= i < m@[k]@.len() implies #[trigger] m@[k]@[i] == m@[k]@[i] && false by {
        assert(entry_ok(l, c, seed_of(m), k, m@[k]@[i], bit, n, u));
    }
}
pub open spec fn none_alike(c: Seq<u8>, v: Seq<ContextState>, upto: int, q: int, bit: int, n: int) -> bool {
    forall|j: int| 0 <= j < upto ==> !alike(c, q, last(#[trigger] v[j]) as int, bit, n)
}
/// The first entry of the context of place q, if one is there, has counted it.
pub open spec fn counted_in(l: LookUpTables, c: Seq<u8>, v: Seq<ContextState>, w: Seq<ContextState>, q: int, bit: int, n: int, b: Bit, found: bool) -> bool {
    if found {
        exists|i: int| 0 <= i < v.len() && alike(c, q, last(v[i]) as int, bit, n) && w == v.update(i, next(l, #[trigger] v[i], q as usize, b, default_costs(v[i])))
    } else { w == v && none_alike(c, v, v.len() as int, q, bit, n) }
}
pub proof fn count_here(l: LookUpTables, c: Seq<u8>, d: Seq<u8>, m: HashMap<u64, Vec<ContextState>>, m2: HashMap<u64, Vec<ContextState>>, bit: int, n: int, b: Bit, found: bool)
    requires
        cell(l, c, m, bit, n, c.len() - 1 - n), 0 <= n < c.len() < usize::MAX, stored(c, d, bit, b), seed_of(m2) == seed_of(m),
        ({
            let q = c.len() - 1 - n;
            let h = digest(seed_of(m), hlog(c, q, bit, n));
            let v = entries(m@, h);
            &&& m2@ == m@.insert(h, m2@[h])
            &&& exists|w: Seq<ContextState>| #[trigger] counted_in(l, c, v, w, q, bit, n, b, found) && m2@[h]@ == (if found { w } else { w.push(first(q as usize, b)) })
        })
    ensures cell(l, d, m2, bit, n, c.len() - n)
{
    hide(alike); hide(hlog); hide(next); hide(entry_ok); hide(known); hide(valid); hide(fold); hide(cell);
    assert(0 <= bit <= 7 && c.len() - 1 - n >= 0) by { reveal(cell); };
    let q = c.len() - 1 - n;
    let h = digest(seed_of(m), hlog(c, q, bit, n));
    let v = entries(m@, h);
    let w = choose|w: Seq<ContextState>| #[trigger] counted_in(l, c, v, w, q, bit, n, b, found) && m2@[h]@ == (if found { w } else { w.push(first(q as usize, b)) });
    assert(agree(c, d, bit, n, q));
    agree_cell(l, c, d, m, bit, n, q);
    stored_same(c, d, bit, n, b);
    lookup(l, c, m, bit, n);
    let at = if found { Some(choose|i: int| 0 <= i < v.len() && alike(c, q, last(v[i]) as int, bit, n) && w == v.update(i, next(l, #[trigger] v[i], q as usize, b, default_costs(v[i])))) } else { None };
    assert forall|i: int| 0 <= i < v.len() implies alike(d, q, last(#[trigger] v[i]) as int, bit, n) == alike(c, q, last(v[i]) as int, bit, n) by { assert(0 <= last(v[i]) < q); }
    count_place(l, d, m, m2, m2@[h], bit, n, q, at);
}
/// The content with a bit of the last byte set to `b`.
pub open spec fn after(c: Seq<u8>, bit: int, b: Bit) -> Seq<u8> {
    c.update(c.len() - 1, (c[c.len() - 1] & !(1u8 << (bit as u8))) | ((if b is One { 1u8 } else { 0u8 }) << (bit as u8)))
}
pub proof fn after_stored(c: Seq<u8>, bit: int, b: Bit)
    requires c.len() > 0, 0 <= bit <= 7
    ensures stored(c, after(c, bit, b), bit, b)
{
    let (a, v) = (c[c.len() - 1], if b is One { 1u8 } else { 0u8 });
    assert forall|j: u8| j < 8 implies #[trigger] bit_of(after(c, bit, b)[c.len() - 1], j as int) == (if j == bit { b is One } else { bit_of(a, j as int) }) by { store_bit(a, v, bit as u8, j); }
    assert(after(c, bit, b) =~= c.update(c.len() - 1, after(c, bit, b)[c.len() - 1]));
}
impl FatMapHistorySource {
    /// Bytes of which bit b has been counted; `open`: within the last byte.
    pub open spec fn counted(&self, open: bool, b: int) -> int {
        if open && b <= self.bit_index { self.input.size - 1 } else { self.input.size as int }
    }
    pub open spec fn shape(&self, open: bool) -> bool {
        &&& self.input.wf() && self.input.start.value == 0 && self.input.max_size < usize::MAX
        &&& self.bit_index <= 7 && (open ==> self.input.size > 0) && (!open ==> self.bit_index == 7)
        &&& self.maps@.len() == (self.max_order + 1) * 8 && self.maps@.len() <= usize::MAX && self.max_order < usize::MAX
    }
    pub open spec fn wf(&self, open: bool) -> bool {
        &&& self.shape(open)
        &&& forall|k: int| 0 <= k < self.maps@.len() ==> cell(*self.luts, self.input.content(), #[trigger] self.maps@[k], k % 8, k / 8, self.counted(open, k % 8) - k / 8)
    }
}
"""
F = {
    "new": dict(spec="""requires 0 < max_window_size < isize::MAX as int, (max_order + 1) * 8 <= usize::MAX
ensures res.wf(false), res.input.content() == Seq::<u8>::empty(), res.max_order == max_order, res.luts == luts, res.input.max_size == max_window_size"""),
    "start_new_byte": dict(spec="""requires old(self).wf(false), old(self).input.size < old(self).input.max_size
ensures final(self).wf(true), final(self).bit_index == 7, final(self).input.content() == old(self).input.content().push(0u8),
    final(self).luts == old(self).luts, final(self).max_order == old(self).max_order, final(self).input.max_size == old(self).input.max_size""",
        end="""proof {
    let (c, d) = (old(self).input.content(), self.input.content());
    assert forall|k: int| 0 <= k < self.maps@.len() implies cell(*self.luts, d, #[trigger] self.maps@[k], k % 8, k / 8, self.counted(true, k % 8) - k / 8) by {
        assert(cell(*self.luts, c, old(self).maps@[k], k % 8, k / 8, old(self).counted(false, k % 8) - k / 8));
        agree_cell(*self.luts, c, d, self.maps@[k], k % 8, k / 8, c.len() - k / 8);
    }
}
"""),
}

H = dict(spec="""requires self.shape(true), order <= self.max_order, order < self.input.size
ensures res == digest(seed_of(self.maps@[order * 8 + self.bit_index]), hlog(self.input.content(), self.input.size - 1 - order, self.bit_index as int, order as int))""",
    loops=[dict(inv="""
invariant self.shape(true), *input == self.input, order < self.input.size, vx_k <= order + 1, 1 <= vx_k,
    hasher.seed() == seed_of(self.maps@[order * 8 + self.bit_index]),
    hasher.log() =~= Seq::new((order + 1 - vx_k) as nat, |i: int| (false, self.input.content()[self.input.size - 1 - order + i] as u16)),
decreases vx_k
""", begin="proof { positions(self.input, self.input.size - vx_k); }\n", after="""proof { positions(self.input, self.input.size - 1);
    let (x, b) = (self.input.content()[self.input.size - 1], self.bit_index);
    assert(b <= 7 ==> (add(256u16, x as u16) >> add(b, 1usize)) == (add(256u16, x as u16) >> add(b as u16, 1u16))) by (bit_vector);
}
""")])
LOOK = """proof {
    let k = order * 8 + self.bit_index;
    assert(k % 8 == self.bit_index && k / 8 == order);
    assert(cell(*self.luts, self.input.content(), self.maps@[k as int], self.bit_index as int, order as int, self.input.size - 1 - order));
    lookup(*self.luts, self.input.content(), self.maps@[k as int], self.bit_index as int, order as int);
    positions(self.input, self.input.size - 1 - order);
}
"""
G = dict(spec=N["gather_history_states"]["spec"].replace("self.wf(), self.bit_index >= 0", "self.wf(true)"),
    loops=[dict(inv="""
invariant_except_break
    bit_histories.items@ + reports(*self.luts, self.input.content(), self.bit_index as int, order as int, self.max_order as int)
        =~= old(bit_histories).items@ + reports(*self.luts, self.input.content(), self.bit_index as int, 0, self.max_order as int),
invariant self.wf(true),
ensures bit_histories.items@ =~= old(bit_histories).items@ + reports(*self.luts, self.input.content(), self.bit_index as int, 0, self.max_order as int),
""", begin=LOOK), dict(inv="""
invariant_except_break vx_found is None, forall|j: int| 0 <= j < vx_i ==> !alike(self.input.content(), self.input.size - 1 - order, last(#[trigger] vec@[j]) as int, self.bit_index as int, order as int),
invariant self.wf(true), order < self.input.size, order <= self.max_order, *map == self.maps@[order * 8 + self.bit_index],
    hash == digest(seed_of(*map), hlog(self.input.content(), self.input.size - 1 - order, self.bit_index as int, order as int)),
    vec@ == entries(map@, hash),
ensures match vx_found {
    Some(s) => valid(*s) && last(*s) < self.input.size - 1 - order && report(*self.luts, self.input.content(), self.bit_index as int, order as int) == Some(relast(*s, (self.input.size - 1 - order - last(*s)) as usize)),
    None => forall|j: int| 0 <= j < vec@.len() ==> !alike(self.input.content(), self.input.size - 1 - order, last(#[trigger] vec@[j]) as int, self.bit_index as int, order as int) },
""", begin=LOOK.replace("positions(", """let s = vec@[vx_i as int];
    assert(0 <= last(s) < self.input.size - 1 - order);
    prefixes(self.input, self.input.size - 1 - order, last(s) as int, self.bit_index as int, order as int);
    positions(self.input, last(s) as int);
    positions("""))])
P = dict(spec="""requires old(self).wf(true),
    forall|i: int| 0 <= i < new_cost_trackers@.len() ==> new_cost_trackers@[i] == CostTrackers::DEFAULT,
    forall|n: int| 0 <= n <= old(self).max_order && n < old(self).input.size ==>
        (n < new_cost_trackers@.len()) == ((#[trigger] report(*old(self).luts, old(self).input.content(), old(self).bit_index as int, n)) matches Some(s) && s is ForNode)
ensures final(self).wf(old(self).bit_index > 0), old(self).bit_index > 0 ==> final(self).bit_index == old(self).bit_index - 1,
    final(self).luts == old(self).luts, final(self).max_order == old(self).max_order, final(self).input.max_size == old(self).input.max_size,
    stored(old(self).input.content(), final(self).input.content(), old(self).bit_index as int, input_bit)""",
    end="""proof {
    let (f, b) = (self.input.content(), old(self).bit_index as int);
    assert forall|k: int| 0 <= k < self.maps@.len() implies cell(*self.luts, f, #[trigger] self.maps@[k], k % 8, k / 8, self.counted(b > 0, k % 8) - k / 8) by {
        let upto = self.counted(b > 0, k % 8) - k / 8;
        let m = self.maps@[k];
        assert(cell(*self.luts, c, old(self).maps@[k], k % 8, k / 8, old(self).counted(true, k % 8) - k / 8));
        if k % 8 == b && k / 8 < self.input.size && k / 8 <= self.max_order {
            assert(cell(*self.luts, d, m, k % 8, k / 8, upto));
            assert forall|j: int| b <= j <= 7 implies bit_of(d[d.len() - 1], j) == #[trigger] bit_of(f[d.len() - 1], j) by { assert(bit_of(d[d.len() - 1], (j as u8) as int) == bit_of(f[d.len() - 1], (j as u8) as int)); }
            agree_cell(*self.luts, d, f, m, k % 8, k / 8, upto);
        } else {
            assert(m == old(self).maps@[k]);
            assert forall|j: int| b < j <= 7 implies bit_of(c[c.len() - 1], j) == #[trigger] bit_of(f[c.len() - 1], j) by { assert(bit_of(c[c.len() - 1], (j as u8) as int) == bit_of(f[c.len() - 1], (j as u8) as int)); }
            let before = old(self).counted(true, k % 8) - k / 8;
            if upto > 0 { assert(upto == before); agree_cell(*self.luts, c, f, m, k % 8, k / 8, upto); } else { empty_cell(*self.luts, c, f, m, k % 8, k / 8, before, upto); }
        }
    }
}
""",
    begin="""hide(cell); hide(hlog); hide(known); hide(entry_ok); hide(fold); hide(ifold); hide(reports);
let ghost c = self.input.content();
let ghost d = after(c, self.bit_index as int, input_bit);
proof { after_stored(c, self.bit_index as int, input_bit); }
""",
    loops=[dict(inv="""
invariant old(self).wf(true), self.shape(true), self.input == old(self).input, self.luts == old(self).luts, self.bit_index == old(self).bit_index, self.max_order == old(self).max_order,
    self.maps@.len() == old(self).maps@.len(), c == self.input.content(), d == after(c, self.bit_index as int, input_bit), stored(c, d, self.bit_index as int, input_bit),
    forall|i: int| 0 <= i < new_cost_trackers@.len() ==> new_cost_trackers@[i] == CostTrackers::DEFAULT,
    forall|n: int| 0 <= n <= self.max_order && n < self.input.size ==>
        (n < new_cost_trackers@.len()) == ((#[trigger] report(*self.luts, c, self.bit_index as int, n)) matches Some(s) && s is ForNode),
    forall|k: int| 0 <= k < self.maps@.len() && !(k % 8 == self.bit_index && k / 8 < order) ==> #[trigger] self.maps@[k] == old(self).maps@[k],
    forall|k: int| 0 <= k < self.maps@.len() && k % 8 == self.bit_index && k / 8 < order ==> cell(*self.luts, d, #[trigger] self.maps@[k], k % 8, k / 8, self.input.size - k / 8),
""", begin="""let ghost k = order * 8 + self.bit_index;
let ghost q = self.input.size - 1 - order;
let ghost m0 = self.maps@[k];
let ghost h = digest(seed_of(m0), hlog(c, q, self.bit_index as int, order as int));
let ghost v0 = entries(m0@, h);
proof {
    assert(k % 8 == self.bit_index && k / 8 == order);
    assert(m0 == old(self).maps@[k]);
    assert(cell(*self.luts, c, m0, self.bit_index as int, order as int, q));
    lookup(*self.luts, c, m0, self.bit_index as int, order as int);
    positions(self.input, q);
}
""", end="""proof {
    assert(self.maps@[k]@ == m0@.insert(h, self.maps@[k]@[h]));
    count_here(*self.luts, c, d, m0, self.maps@[k], self.bit_index as int, order as int, input_bit, found);
    assert(cell(*self.luts, d, self.maps@[k], self.bit_index as int, order as int, self.input.size - order));
}
"""), dict(inv="""
invariant_except_break !found, vec@ == v0, none_alike(c, v0, vx_i as int, q, bit_index as int, order as int),
invariant input.wf(), input.start.value == 0, c == input.content(), q == input.size - 1 - order, q == byte_index.value, q >= 0, bit_index <= 7,
    vec@.len() == v0.len(), vx_n == v0.len(), *luts == *old(self).luts,
    (order < new_cost_trackers@.len()) == (report(*luts, c, bit_index as int, order as int) matches Some(s) && s is ForNode),
    forall|i: int| 0 <= i < new_cost_trackers@.len() ==> new_cost_trackers@[i] == CostTrackers::DEFAULT,
    v0 == entries(m0@, digest(seed_of(m0), hlog(c, q, bit_index as int, order as int))), cell(*luts, c, m0, bit_index as int, order as int, q),
ensures counted_in(*luts, c, v0, vec@, q, bit_index as int, order as int, input_bit, found),
""", begin="""proof {
    let s = v0[vx_i as int];
    lookup(*luts, c, m0, bit_index as int, order as int);
    assert(valid(s) && 0 <= last(s) < q);
    prefixes(*input, q, last(s) as int, bit_index as int, order as int);
    positions(*input, last(s) as int);
    positions(*input, q);
}
""")])
F["gather_history_states"] = G
F["process_input_bit"] = P
TARGET = dict(window.TARGET, name="sources", properties=("C18",))
TARGET["rewrites"] = window.TARGET["rewrites"] + [
    (r"\bSome\((\w+::\w+)\)\s*\.filter\(\|_\|\s*([^;]*?)\);", r"(if \2 { Some(\1) } else { None });", "Some(x).filter(|_| c) is if c { Some(x) } else { None }"),
    (r"\bmatch self \{(\s*)&(?!mut)", r"match *self {\1&", "match on a reference with & patterns is a match on the place"),
    (r"&(ContextState::\w+ \{[^{}]*\} =>)", r"\1", "(the same, its arms)"),
    (r"&mut (ContextState::\w+ \{\s*)ref mut ", r"\1", "&mut P { ref mut x } under match &mut e is P { x } by default binding"),
    (r"(\w+)\.iter\(\)\s*\.all\(\|(\w+)\|\s*((?:[^()]|\([^()]*\))*)\)", r"vx_all(\1, |\2: &CostTrackers| -> (vx_r: bool) ensures vx_r == (\3) { \3 })", "s.iter().all(|c| e) is a loop over s; the closure states its result"),
    (r"^const ", "pub const ", "constants are visible to specifications"),
    (r"vec!\[HashMap::new\(\);\s*([^\]]+)\]", r"vx_empty_maps(\1)", "vec![HashMap::new(); n] is n empty maps"),
    (r"let mut hasher: DefaultHasher = map\.hasher\(\)\.build_hasher\(\);", "let mut hasher: VxHasher = vx_hasher(map);", "the map's hasher, by its assumed contract"),
    (r"\bmap\.entry\((\w+)\)\.or_insert\(Vec::new\(\)\)", r"vx_entry_or_new(map, \1)", "entry(k).or_insert(Vec::new()), by its assumed contract"),
    (r"\binput\[((?:[^\[\]])+)\]", r"(*input.index(\1))", "input[i] is the call input.index(i)"),
    (r"for (\w+) in \((\w+)\.\.([^()]+)\)\.rev\(\) \{", r"let mut vx_k = \3; while vx_k > \2 { vx_k -= 1; let \1 = vx_k;", "a loop over (a..b).rev() counts down"),
    (r"(?s)match (\w+)\.into_iter\(\)\s*\.\s*flat_map\(\|(\w+)\| \2\.into_iter\(\)\s*\.find\(\|(\w+)\| (\{.*?\})\)\)\s*\.last\(\) \{",
     r"let mut vx_found: Option<&ContextState> = None; if let Some(\2) = \1 { for vx_i in 0..\2.len() { let \3 = &\2[vx_i]; if \4 { vx_found = Some(\3); break; } } } match vx_found {",
     "o.into_iter().flat_map(|v| v.into_iter().find(|x| c)).last() is the first element of o's vector with c"),
    (r"(?s)let (\w+) = (\w+)\.iter_mut\(\)\s*\.find\(\|(\w+)\| (\{.*?\})\)\s*\.map\(\|(\w+)\| (\{.*\})\)\s*\.is_some\(\);",
     r"let mut \1 = false; let vx_n = \2.len(); for vx_i in 0..vx_n { let \3 = &\2[vx_i]; if \4 { let \5 = &mut \2[vx_i]; \6; \1 = true; break; } }",
     "v.iter_mut().find(|x| c).map(|x| f).is_some() runs f on the first element with c"),
    (r"<'a>", "", "lifetime parameters"), (r"&'a ", "&'static ", "lifetime parameters (the tables outlive everything)"),
]
MAXN = "src/estimators/decelerating.rs"
TARGET["units"] = window.TARGET["units"] + [
    dict(kind="struct", file="src/estimators/cost.rs", name="CostTracker", attr="#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"),
    dict(kind="struct", file="src/history/tree/node.rs", name="CostTrackers", attr="#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"),
    dict(kind="struct", file=MAXN, name="DeceleratingEstimator", attr="#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"),
    dict(kind="struct", file="src/history/state/bits_runs.rs", name="BitsRunsTracker", attr="#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"),
    dict(kind="struct", file="src/history/state/recent_bits.rs", name="RecentBitsHistory", attr="#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"),
    dict(kind="enum", file="src/history/mod.rs", name="ContextState", attr="#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"),
    dict(kind="struct", file="src/history/mod.rs", name="CollectedContextStates"),
    dict(kind="text", text="pub struct Log2D(pub i32);\npub struct Log2Lut {}"),
    dict(kind="impl", name="Log2Lut", emit="impl Log2Lut", file="src/lut/log2.rs", headers=["impl Log2Lut"], only=["INDEX_BITS"], fns={}),
    dict(kind="impl", name="Log2D", emit="impl Log2D", file="src/fixed_point/types.rs", headers=["impl FixedPoint for Log2D"], only=["FRACTIONAL_BITS"], fns={}),
    dict(kind="impl", name="CostTracker", emit="impl CostTracker", file="src/estimators/cost.rs", headers=["impl CostTracker"], only=["DECAY_SCALE", "FRACTIONAL_BITS", "INITIAL"], fns={}),
    dict(kind="text", text=DEFINITION),
    dict(kind="impl", name="CostTrackers", emit="impl CostTrackers", file="src/history/tree/node.rs", headers=["impl CostTrackers"], only=["new", "DEFAULT"],
         fns={"new": dict(spec="ensures res.stationary == stationary, res.non_stationary == non_stationary")}),
    dict(kind="impl", name="DeceleratingEstimator", emit="impl DeceleratingEstimator", file=MAXN, headers=["impl DeceleratingEstimator"], only=["MAX_COUNT"], fns={}),
    dict(kind="impl", name="ContextState", emit="impl ContextState", file="src/history/mod.rs", headers=["impl ContextState"],
         only=["MAX_OCCURRENCE_COUNT", "is_for_node", "starting_state", "next_state", "last_occurrence_distance"],
         fns={
             "is_for_node": dict(spec="ensures res == (self is ForNode)"),
             "last_occurrence_distance": dict(spec="ensures res == (match self { ContextState::ForEdge { last_occurrence_distance, .. } => *last_occurrence_distance, ContextState::ForNode { last_occurrence_distance, .. } => *last_occurrence_distance })"),
             "starting_state": dict(spec="ensures res == first(first_occurrence_distance, bit_in_context), valid(res)"),
             "next_state": dict(spec="""requires valid(*self), cost_trackers_opt is Some == (self is ForNode)
ensures res == next(*luts, *self, new_occurrence_distance, bit_in_context, cost_trackers_opt), valid(res)"""),
         }),
    dict(kind="struct", file="src/history/naive.rs", name="NaiveHistorySource"),
    dict(kind="text", text=NAIVE),
    dict(kind="impl", name="NaiveHistorySource", emit="impl NaiveHistorySource", file="src/history/naive.rs",
         headers=["impl<'a> HistorySource<'a> for NaiveHistorySource<'a>"], fns=N),
    dict(kind="struct", file="src/history/fat_map.rs", name="FatMapHistorySource"),
    dict(kind="text", text=FAT),
    dict(kind="impl", name="FatMapHistorySource", emit="impl FatMapHistorySource", file="src/history/fat_map.rs",
         headers=["impl<'a> FatMapHistorySource<'a>"], fns={"compute_hash": H}),
    dict(kind="impl", name="FatMapHistorySource", emit="impl FatMapHistorySource", file="src/history/fat_map.rs",
         headers=["impl<'a> HistorySource<'a> for FatMapHistorySource<'a>"], fns=F),
]
