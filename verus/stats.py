"""C26: the statistics (src/predictor/stats.rs), for every number of contexts,
every maximal order and every history."""
FILE = "src/predictor/stats.rs"

PRELUDE = r'''
use vstd::prelude::*;
verus! {
global size_of usize == 8;

// ---- what the statistics are made from (contracts of C04, C05, C17, C20) -------
pub enum Bit { Zero, One }
#[verifier::external_body]
pub struct Log2Lut { _p: u8 }
#[verifier::external_body]
pub struct LookUpTables { _p: u8 }
pub uninterp spec fn log2_of(luts: &LookUpTables) -> &Log2Lut;
impl LookUpTables {
    #[verifier::external_body]
    pub fn log2_lut(&self) -> (r: &Log2Lut) ensures r == log2_of(self) { unimplemented!() }
}
/// A sum of costs; sums are exact or the addition stops (C05).
pub struct Log2Q(pub i64);
impl Copy for Log2Q {}
impl Clone for Log2Q { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Log2Q {
    pub open spec fn val(&self) -> int { self.0 as int }
    #[verifier::external_body]
    pub fn new_unchecked(raw: i64) -> (r: Self) ensures r.val() == raw { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&self, other: &Self) -> (r: Self)
        ensures r.val() == self.val() + other.val(), i64::MIN <= self.val() + other.val() <= i64::MAX
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Log2D { _p: u8 }
pub uninterp spec fn widened(x: &Log2D) -> int;
impl Log2D {
    #[verifier::external_body]
    pub fn to_fix_i64(&self) -> (r: Log2Q) ensures r.val() == widened(self) { unimplemented!() }
}
#[verifier::external_body]
pub struct FinalProbability { _p: u8 }
pub uninterp spec fn cost_of(p: &FinalProbability, bit: Bit, lut: &Log2Lut) -> Log2D;
impl FinalProbability {
    #[verifier::external_body]
    pub fn estimate_cost(&self, bit: Bit, lut: &Log2Lut) -> (r: Log2D) ensures r == cost_of(self, bit, lut) { unimplemented!() }
}
#[verifier::external_body]
pub struct ContextState { _p: u8 }
pub uninterp spec fn two_valued(c: &ContextState) -> bool;
pub uninterp spec fn occurrences(c: &ContextState) -> u16;
impl ContextState {
    #[verifier::external_body]
    pub fn is_for_node(&self) -> (r: bool) ensures r == two_valued(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn occurrence_count(&self) -> (r: u16) ensures r == occurrences(self) { unimplemented!() }
}
pub struct CollectedContextStates { pub items: Vec<ContextState> }
impl CollectedContextStates {
    pub fn items(&self) -> (r: &[ContextState]) ensures r@ == self.items@ { self.items.as_slice() }
}
#[derive(Structural, PartialEq, Eq)]
pub struct UnfinishedByte(pub u8);
impl UnfinishedByte {
    pub exec const EMPTY: Self ensures Self::EMPTY.0 == 1 { UnfinishedByte(1) }
}
#[verifier::external_body]
pub struct LastBytesCache { _p: u8 }
pub uninterp spec fn unfinished(c: &LastBytesCache) -> u8;
pub uninterp spec fn finished(c: &LastBytesCache) -> u8;
impl LastBytesCache {
    #[verifier::external_body]
    pub fn unfinished_byte(&self) -> (r: UnfinishedByte) ensures r.0 == unfinished(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn previous_byte_1(&self) -> (r: u8) ensures r == finished(self) { unimplemented!() }
}
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }

// ---- vocabulary ------------------------------------------------------------------
pub open spec fn unary(s: Seq<ContextState>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { unary(s.drop_last()) + if two_valued(&s.last()) { 0int } else { 1 } }
}
pub open spec fn capped(n: int) -> int { if n < 4 { n } else { 4 } }
/// The class of contexts a bit is accounted under.
pub open spec fn class_of(s: Seq<ContextState>) -> int { 5 * capped(s.len() - 1) + capped(unary(s)) }
pub open spec fn costs(s: Seq<Log2Q>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { costs(s.drop_last()) + s.last().val() }
}
pub open spec fn counts(s: Seq<usize>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { counts(s.drop_last()) + s.last() }
}
pub open spec fn counts64(s: Seq<u64>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { counts64(s.drop_last()) + s.last() }
}
/// `s` with `x` added at `i`.
pub open spec fn cost_added(s: Seq<Log2Q>, t: Seq<Log2Q>, i: int, x: int) -> bool {
    &&& t.len() == s.len() && 0 <= i < s.len() && t[i].val() == s[i].val() + x
    &&& forall|k: int| 0 <= k < s.len() && k != i ==> t[k] == s[k]
}
pub open spec fn counted(s: Seq<usize>, t: Seq<usize>, i: int) -> bool {
    &&& t.len() == s.len() && 0 <= i < s.len() && t[i] == s[i] + 1
    &&& forall|k: int| 0 <= k < s.len() && k != i ==> t[k] == s[k]
}
pub open spec fn counted64(s: Seq<u64>, t: Seq<u64>, i: int, x: int) -> bool {
    &&& t.len() == s.len() && 0 <= i < s.len() && t[i] == s[i] + x
    &&& forall|k: int| 0 <= k < s.len() && k != i ==> t[k] == s[k]
}
impl PredictionStatistics {
    pub open spec fn shaped(&self, max_order: int) -> bool {
        &&& self.per_order_counts@.len() == 25 && self.per_order_costs@.len() == 25
        &&& self.per_symbol_counts@.len() == 256 && self.per_symbol_costs@.len() == 256
        &&& self.per_order_occurrences_count@.len() == 5 * (max_order + 1)
    }
    /// No counter is near its end (a history of less than 2^47 bits: `short`).
    pub open spec fn room(&self) -> bool {
        &&& self.total_bytes < 0x8000_0000_0000_0000 && self.total_contexts_count < 0x8000_0000_0000_0000
        &&& forall|i: int| 0 <= i < self.per_order_counts@.len() ==> #[trigger] self.per_order_counts@[i] < 0x8000_0000_0000_0000usize
        &&& forall|i: int| 0 <= i < self.per_symbol_counts@.len() ==> #[trigger] self.per_symbol_counts@[i] < 0x8000_0000_0000_0000usize
        &&& forall|i: int| 0 <= i < self.per_order_occurrences_count@.len() ==> #[trigger] self.per_order_occurrences_count@[i] < 0x8000_0000_0000_0000u64
    }
    /// The accounts agree with each other, and with `bits` coded bits that had
    /// a context (`contexts` of them in all, `occ` occurrences in the longest).
    pub open spec fn balanced(&self, bits: int, contexts: int, occ: int) -> bool {
        &&& costs(self.per_order_costs@) == self.total_cost.val()
        &&& counts(self.per_order_counts@) == bits
        &&& counts64(self.per_order_occurrences_count@) == occ
        &&& self.total_contexts_count == contexts
        &&& if self.total_bytes == 0 { costs(self.per_symbol_costs@) == self.total_cost.val() && counts(self.per_symbol_counts@) == 0 }
            else { costs(self.per_symbol_costs@) + self.current_byte_cost.val() == self.total_cost.val()
                   && counts(self.per_symbol_counts@) == self.total_bytes - 1 }
    }
}
pub open spec fn bit_cost(luts: &LookUpTables, p: &FinalProbability, bit: Bit) -> int { widened(&cost_of(p, bit, log2_of(luts))) }

// ---- lemmas ------------------------------------------------------------------------
pub proof fn costs_added(s: Seq<Log2Q>, t: Seq<Log2Q>, i: int, x: int)
    requires cost_added(s, t, i, x)
    ensures costs(t) == costs(s) + x
    decreases s.len()
{
    let n = s.len() - 1;
    if i == n { assert(s.drop_last() =~= t.drop_last()); }
    else { assert(cost_added(s.drop_last(), t.drop_last(), i, x)); costs_added(s.drop_last(), t.drop_last(), i, x); }
}
pub proof fn counts_added(s: Seq<usize>, t: Seq<usize>, i: int)
    requires counted(s, t, i)
    ensures counts(t) == counts(s) + 1
    decreases s.len()
{
    let n = s.len() - 1;
    if i == n { assert(s.drop_last() =~= t.drop_last()); }
    else { assert(counted(s.drop_last(), t.drop_last(), i)); counts_added(s.drop_last(), t.drop_last(), i); }
}
pub proof fn counts64_added(s: Seq<u64>, t: Seq<u64>, i: int, x: int)
    requires counted64(s, t, i, x)
    ensures counts64(t) == counts64(s) + x
    decreases s.len()
{
    let n = s.len() - 1;
    if i == n { assert(s.drop_last() =~= t.drop_last()); }
    else { assert(counted64(s.drop_last(), t.drop_last(), i, x)); counts64_added(s.drop_last(), t.drop_last(), i, x); }
}
pub proof fn no_costs(s: Seq<Log2Q>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).val() == 0
    ensures costs(s) == 0
    decreases s.len()
{ if s.len() > 0 { no_costs(s.drop_last()); } }
pub proof fn no_counts(s: Seq<usize>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0usize
    ensures counts(s) == 0
    decreases s.len()
{ if s.len() > 0 { no_counts(s.drop_last()); } }
pub proof fn no_counts64(s: Seq<u64>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0u64
    ensures counts64(s) == 0
    decreases s.len()
{ if s.len() > 0 { no_counts64(s.drop_last()); } }
pub proof fn one_of(s: Seq<usize>, i: int)
    requires 0 <= i < s.len()
    ensures 0 <= s[i] <= counts(s)
    decreases s.len()
{
    if i < s.len() - 1 { one_of(s.drop_last(), i); }
    else if s.len() > 1 { one_of(s.drop_last(), 0); }
    else { assert(counts(s.drop_last()) == 0); }
}
pub proof fn one_of64(s: Seq<u64>, i: int)
    requires 0 <= i < s.len()
    ensures 0 <= s[i] <= counts64(s)
    decreases s.len()
{
    if i < s.len() - 1 { one_of64(s.drop_last(), i); }
    else if s.len() > 1 { one_of64(s.drop_last(), 0); }
    else { assert(counts64(s.drop_last()) == 0); }
}
pub proof fn unary_more(s: Seq<ContextState>, i: int)
    requires 0 <= i < s.len()
    ensures unary(s.take(i + 1)) == unary(s.take(i)) + (if two_valued(&s[i]) { 0int } else { 1 })
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn unary_le(s: Seq<ContextState>)
    ensures 0 <= unary(s) <= s.len()
    decreases s.len()
{ if s.len() > 0 { unary_le(s.drop_last()); } }
/// Accounting never wraps within 2^47 bits.
pub proof fn short(s: PredictionStatistics, bits: int, contexts: int, occ: int, all_bits: int, max_order: int)
    requires s.balanced(bits, contexts, occ), 0 <= bits <= all_bits < 0x8000_0000_0000, 0 <= contexts <= bits * 0x1_0000, 0 <= occ <= bits * 0xffff,
        s.total_bytes <= all_bits + 1
    ensures s.room()
{
    assert forall|i: int| 0 <= i < s.per_order_counts@.len() implies #[trigger] s.per_order_counts@[i] < 0x8000_0000_0000_0000usize by { one_of(s.per_order_counts@, i); }
    assert forall|i: int| 0 <= i < s.per_symbol_counts@.len() implies #[trigger] s.per_symbol_counts@[i] < 0x8000_0000_0000_0000usize by { one_of(s.per_symbol_counts@, i); }
    assert forall|i: int| 0 <= i < s.per_order_occurrences_count@.len() implies #[trigger] s.per_order_occurrences_count@[i] < 0x8000_0000_0000_0000u64 by { one_of64(s.per_order_occurrences_count@, i); }
}
'''

FNS = {
    "new": dict(
        spec="""requires max_order < 0x1000_0000
ensures res.shaped(max_order as int), res.luts == luts, res.total_bytes == 0, res.balanced(0, 0, 0), res.room()""",
        begin="""proof {
    assert forall|s: Seq<Log2Q>| (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).val() == 0) implies #[trigger] costs(s) == 0 by { no_costs(s); }
    assert forall|s: Seq<usize>| (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0usize) implies #[trigger] counts(s) == 0 by { no_counts(s); }
    assert forall|s: Seq<u64>| (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0u64) implies #[trigger] counts64(s) == 0 by { no_counts64(s); }
}
"""),
    "start_new_byte": dict(
        spec="""requires unfinished(last_bytes) == 1, old(self).room(), exists|mo: int| old(self).shaped(mo)
ensures final(self).luts == old(self).luts, final(self).total_bytes == old(self).total_bytes + 1,
    forall|mo: int| old(self).shaped(mo) ==> final(self).shaped(mo),
    final(self).current_byte_cost.val() == 0, final(self).total_cost == old(self).total_cost,
    final(self).total_contexts_count == old(self).total_contexts_count,
    final(self).per_order_counts@ == old(self).per_order_counts@, final(self).per_order_costs@ == old(self).per_order_costs@,
    final(self).per_order_occurrences_count@ == old(self).per_order_occurrences_count@,
    old(self).total_bytes > 0 ==> counted(old(self).per_symbol_counts@, final(self).per_symbol_counts@, finished(last_bytes) as int)
        && cost_added(old(self).per_symbol_costs@, final(self).per_symbol_costs@, finished(last_bytes) as int, old(self).current_byte_cost.val()),
    old(self).total_bytes == 0 ==> final(self).per_symbol_counts@ == old(self).per_symbol_counts@
        && final(self).per_symbol_costs@ == old(self).per_symbol_costs@,
    forall|b: int, c: int, o: int| old(self).balanced(b, c, o) ==> final(self).balanced(b, c, o)""",
        end="""
proof {
    if old(self).total_bytes > 0 {
        let k = finished(last_bytes) as int;
        counts_added(old(self).per_symbol_counts@, self.per_symbol_counts@, k);
        costs_added(old(self).per_symbol_costs@, self.per_symbol_costs@, k, old(self).current_byte_cost.val());
    }
}
"""),
    "on_next_bit": dict(
        spec="""requires old(self).room(), old(self).shaped(contexts.items@.len() - 1) || exists|mo: int| old(self).shaped(mo) && contexts.items@.len() <= mo + 1,
    contexts.items@.len() < 0x1_0000_0000
ensures final(self).luts == old(self).luts, final(self).total_bytes == old(self).total_bytes,
    forall|mo: int| old(self).shaped(mo) ==> final(self).shaped(mo),
    final(self).per_symbol_counts@ == old(self).per_symbol_counts@, final(self).per_symbol_costs@ == old(self).per_symbol_costs@,
    final(self).total_contexts_count == old(self).total_contexts_count + contexts.items@.len(),
    contexts.items@.len() == 0 ==> *final(self) == (PredictionStatistics { total_contexts_count: final(self).total_contexts_count, ..*old(self) }),
    contexts.items@.len() > 0 ==> {
        let x = bit_cost(old(self).luts, &final_probability, input_bit);
        let k = class_of(contexts.items@);
        &&& final(self).total_cost.val() == old(self).total_cost.val() + x
        &&& final(self).current_byte_cost.val() == old(self).current_byte_cost.val() + x
        &&& counted(old(self).per_order_counts@, final(self).per_order_counts@, k)
        &&& cost_added(old(self).per_order_costs@, final(self).per_order_costs@, k, x)
        &&& counted64(old(self).per_order_occurrences_count@, final(self).per_order_occurrences_count@, k, occurrences(&contexts.items@.last()) as int)
    },
    old(self).total_bytes > 0 ==> forall|b: int, c: int, o: int| #[trigger] old(self).balanced(b, c, o) ==>
        final(self).balanced(b + (if contexts.items@.len() > 0 { 1int } else { 0 }), c + contexts.items@.len(),
            o + (if contexts.items@.len() > 0 { occurrences(&contexts.items@.last()) as int } else { 0 }))""",
        begin="proof { unary_le(contexts.items@); }\n",
        loops=[dict(inv="""invariant vx_s@ == contexts.items@, vx_n == vx_s@.len(), vx_c == unary(vx_s@.take(vx_i as int)), vx_c <= vx_i, vx_n < 0x1_0000_0000""",
                    begin="proof { unary_more(vx_s@, vx_i as int); }\n",
                    after="proof { assert(vx_s@.take(vx_n as int) =~= contexts.items@); }\n")],
        end="""
proof {
    if contexts.items@.len() > 0 {
        let k = class_of(contexts.items@);
        let x = bit_cost(old(self).luts, &final_probability, input_bit);
        counts_added(old(self).per_order_counts@, self.per_order_counts@, k);
        costs_added(old(self).per_order_costs@, self.per_order_costs@, k, x);
        counts64_added(old(self).per_order_occurrences_count@, self.per_order_occurrences_count@, k, occurrences(&contexts.items@.last()) as int);
    }
}
"""),
}
UNITS = [
    dict(kind="struct", file=FILE, name="PredictionStatistics"),
    dict(kind="impl", file=FILE, name="predictor::stats::PredictionStatistics", emit="impl PredictionStatistics",
         headers=["impl<'a> PredictionStatistics<'a>"], fns=FNS,
         skip=["print_state", "print_costs_and_occurrences_by_context_type", "print_costs_and_occurrences_by_symbol_value"]),
]
REWRITES = [
    (r"PredictionStatistics<'a>", "PredictionStatistics", "the lifetime of the shared tables is dropped"),
    (r"&'a LookUpTables", "&'static LookUpTables", "the lifetime of the shared tables is dropped"),
    (r"\b(\d+)\s*\.min\(", r"vx_min(\1, ", "min of two numbers as a call"),
    (r"([\w.()]+?)\s*\.iter\(\)\s*\.filter\(\|(\w+)\|\s*([^|{}]*?)\)\s*\.count\(\)",
     lambda m: "{ let vx_s = %s; let vx_n = vx_s.len(); let mut vx_c: usize = 0;\nfor vx_i in 0..vx_n {\nlet %s = &vx_s[vx_i]; if %s { vx_c += 1; }\n} vx_c }" % m.groups(),
     "iter().filter(c).count() as the loop it stands for"),
    (r"<i64>::max_value\(\)", "i64::MAX", "the same constant"),
]
TARGET = dict(prelude=PRELUDE, units=UNITS, rewrites=REWRITES)
