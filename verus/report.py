"""C26: what the statistics print (src/predictor/stats.rs): every printed value
is the counter, sum or quotient that belongs where it is printed."""
import re

FILE = "src/predictor/stats.rs"

PRELUDE = r'''
use vstd::prelude::*;
verus! {
global size_of usize == 8;

/// Real numbers of the machine: only that equal operations give equal results.
#[verifier::external_body]
pub struct Real { _p: u8 }
impl Copy for Real {}
impl Clone for Real { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn quotient(a: Real, b: Real) -> Real;
pub uninterp spec fn real_of(n: int) -> Real;
impl vstd::std_specs::ops::DivSpecImpl<Real> for Real {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: Real) -> bool { true }
    open spec fn div_spec(self, rhs: Real) -> Real { quotient(self, rhs) }
}
impl core::ops::Div for Real {
    type Output = Real;
    #[verifier::external_body] fn div(self, rhs: Real) -> Real { unimplemented!() }
}
#[verifier::external_body] pub fn vx_real(n: u64) -> (r: Real) ensures r == real_of(n as int) { unimplemented!() }
#[verifier::external_body]
pub struct Log2Q { _p: u8 }
pub uninterp spec fn bits_of(x: Log2Q) -> Real;
impl Log2Q {
    #[verifier::external_body] pub fn as_f64(&self) -> (r: Real) ensures r == bits_of(*self) { unimplemented!() }
}
#[verifier::external_body]
pub struct LookUpTables { _p: u8 }

impl PredictionStatistics {
    /// Tables as `new` makes them for a maximal order of 4 or more, and a
    /// history of less than 2^61 bytes.
    pub open spec fn shaped(&self) -> bool {
        &&& self.per_order_counts@.len() == 25 && self.per_order_costs@.len() == 25 && self.per_order_occurrences_count@.len() >= 25
        &&& self.per_symbol_counts@.len() == 256 && self.per_symbol_costs@.len() == 256
        &&& self.total_bytes < 0x2000_0000_0000_0000
    }
}
// ---- what may be printed where -----------------------------------------------------
#[verifier::external_body] pub fn vx_print_total(Ghost(s): Ghost<&PredictionStatistics>, bytes: Real)
    requires bytes == quotient(bits_of(s.total_cost), real_of(8)) { unimplemented!() }
#[verifier::external_body] pub fn vx_print_average(Ghost(s): Ghost<&PredictionStatistics>, contexts: Real)
    requires contexts == quotient(real_of(s.total_contexts_count as int), real_of(8 * s.total_bytes)) { unimplemented!() }
#[verifier::external_body] pub fn vx_print_class(Ghost(s): Ghost<&PredictionStatistics>, order: usize, unary: usize, count: Real, cost: Real, occurrences: Real)
    requires order <= 4, unary <= 4, s.shaped(), ({
        let k = 5 * order + unary;
        &&& count == quotient(real_of(s.per_order_counts@[k] as int), real_of(8))
        &&& cost == quotient(bits_of(s.per_order_costs@[k]), real_of(8))
        &&& occurrences == quotient(real_of(s.per_order_occurrences_count@[k] as int), real_of(s.per_order_counts@[k] as int))
    })
{ unimplemented!() }
#[verifier::external_body] pub fn vx_print_symbol(Ghost(s): Ghost<&PredictionStatistics>, code: usize, shown: char, count: usize, cost: Real)
    requires code < 256, s.shaped(), shown == (if 32 <= code < 127 { (code as u8) as char } else { ' ' }),
        count == s.per_symbol_counts@[code as int], cost == quotient(bits_of(s.per_symbol_costs@[code as int]), real_of(8))
{ unimplemented!() }
'''

RW = [
    (r"PredictionStatistics<'a>", "PredictionStatistics", "the lifetime of the shared tables is dropped"),
    (r"&'a LookUpTables", "&'static LookUpTables", "(the same)"),
    (r"\bprint(?:ln)?!\(\s*(?:\"[^\"{}]*\")?\s*\);", "", "printing without values is left out"),
    (r"\bprintln!\(\s*\"Total cost[^\"{}]*\{[^\"{}]*\}[^\"{}]*\",\s*", "vx_print_total(Ghost(self), ", "printing values is a call whose precondition says what belongs there; formats are left out"),
    (r"\bprintln!\(\s*\"Average context length[^\"{}]*\{[^\"{}]*\}[^\"{}]*\",\s*", "vx_print_average(Ghost(self), ", "(the same)"),
    (r"\bprintln!\(\s*\"order \{\}, unary \{\}, count \{[^\"{}]*\},\s*(?:\\\s*)?cost \{[^\"{}]*\},\s*(?:\\\s*)?avg occur \{[^\"{}]*\}\",\s*", "vx_print_class(Ghost(self), ", "(the same)"),
    (r"\bprint!\(\s*\"\{:2x\} \{\} \{:10\} \{:13\.2\}\",\s*", "vx_print_symbol(Ghost(self), ", "(the same)"),
    (r"((?:\b[\w.]+(?:\[\w+\])?|\([^()]*\))(?: as u\w+)*)\s+as\s+f64\b", r"vx_real((\1) as u64)", "a number as a real"),
    (r"/ 8\.0\b", "/ vx_real(8)", "(8 as a real)"),
    (r"for (\w+) in 0\.\.=(\d+) \{", r"for \1 in 0..(\2 + 1) {", "0..=n is 0..(n + 1)"),
    (r"for (\w+) in (\w+)\.iter\(\) \{", r"for vx_i in 0..\2.len() { let \1 = &\2[vx_i];", "a for loop over a slice goes through its indices"),
]


def inline_closure(fn):
    """`let f = |x: T| { .. };` and its calls `f(e);` as blocks at the calls."""
    import sys
    vx = sys.modules.get('tools.vx') or sys.modules['vx']
    m = re.search(r"let (\w+) = \|(\w+): (\w+)\| \{", fn.body)
    if not m:
        raise vx.Lost(fn.name + ": no closure that prints a symbol")
    e = vx.close(vx.blank(fn.body), m.end() - 1)
    inner = fn.body[m.end():e - 1]
    rest = fn.body[:m.start()] + fn.body[e:].lstrip(" \n;")
    fn.body = re.sub(r"\b%s\(([^;]*)\);" % m.group(1), lambda c: "{ let %s: %s = %s;%s }" % (m.group(2), m.group(3), c.group(1), inner), rest)


FNS = {
    "print_state": dict(spec="requires self.shaped()", loops=[dict(inv="invariant self.shaped()")]),
    "print_costs_and_occurrences_by_context_type": dict(spec="requires self.shaped()", loops=[
        dict(inv="invariant self.shaped()"), dict(inv="invariant self.shaped(), order <= 4")]),
    "print_costs_and_occurrences_by_symbol_value": dict(spec="requires self.shaped()", shape=inline_closure, loops=[
        dict(inv="invariant self.shaped()"), dict(inv="invariant self.shaped(), row <= 31")]),
}
TARGET = dict(name="report", properties=("C26",), prelude=PRELUDE, rewrites=RW, units=[
    dict(kind="enum", file=FILE, name="PredictionStatisticsType"),
    dict(kind="struct", file=FILE, name="PredictionStatistics"),
    dict(kind="impl", file=FILE, name="predictor::stats::PredictionStatistics", emit="impl PredictionStatistics",
         headers=["impl<'a> PredictionStatistics<'a>"], fns=FNS, only=list(FNS)),
])
