"""C28: the program (src/main.rs): what it counts and adds up, for every file."""
import re

FILE = "src/main.rs"

PRELUDE = r'''
use vstd::prelude::*;
verus! {
global size_of usize == 8;

// ---- what the program is made from ---------------------------------------------
pub open spec fn bit_of(b: u8, i: int) -> bool { (b >> (i as u64)) & 1u8 == 1u8 }
/// Real numbers of the machine: only that equal operations give equal results.
#[verifier::external_body]
pub struct Real { _p: u8 }
impl Copy for Real {}
impl Clone for Real { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn zero() -> Real;
pub uninterp spec fn minus(a: Real, b: Real) -> Real;
pub uninterp spec fn log_of(a: Real) -> Real;
pub uninterp spec fn rest_of_one(a: Real) -> Real;
pub uninterp spec fn quotient(a: Real, b: Real) -> Real;
pub uninterp spec fn real_of(n: int) -> Real;
impl vstd::std_specs::ops::DivSpecImpl<Real> for Real {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: Real) -> bool { true }
    open spec fn div_spec(self, rhs: Real) -> Real { quotient(self, rhs) }
}
impl core::ops::Div for Real {
    type Output = Real;
    #[verifier::external_body] fn div(self, rhs: Real) -> Real { unimplemented!() }
}
#[verifier::external_body] pub fn vx_real(n: u64) -> (r: Real) ensures r == real_of(n as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_zero() -> (r: Real) ensures r == zero() { unimplemented!() }
#[verifier::external_body] pub fn vx_minus(a: Real, b: Real) -> (r: Real) ensures r == minus(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_one_minus(a: Real) -> (r: Real) ensures r == rest_of_one(a) { unimplemented!() }
impl Real {
    #[verifier::external_body] pub fn log2(self) -> (r: Real) ensures r == log_of(self) { unimplemented!() }
}
#[verifier::external_body]
pub struct LookUpTables { _p: u8 }
impl LookUpTables {
    #[verifier::external_body] pub fn new() -> LookUpTables { unimplemented!() }
}
/// The predictor by the calls made so far; its answer is a function of them (C25).
pub enum Call { Start, Predict, Update(bool) }
#[verifier::external_body]
pub struct Probability { _p: u8 }
pub uninterp spec fn predicted(calls: Seq<Call>) -> Probability;
pub uninterp spec fn real(p: Probability) -> Real;
impl Probability {
    #[verifier::external_body] pub fn as_f64(&self) -> (r: Real) ensures r == real(*self) { unimplemented!() }
}
#[verifier::external_body]
pub struct Predictor { _p: u8 }
impl Predictor {
    pub uninterp spec fn calls(&self) -> Seq<Call>;
    #[verifier::external_body]
    pub fn new(luts: &LookUpTables) -> (r: Predictor) ensures r.calls() == Seq::<Call>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn start_new_byte(&mut self) ensures final(self).calls() == old(self).calls().push(Call::Start) { unimplemented!() }
    #[verifier::external_body]
    pub fn predict(&mut self) -> (r: Probability)
        ensures r == predicted(old(self).calls()), final(self).calls() == old(self).calls().push(Call::Predict)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, input_bit: Bit)
        ensures final(self).calls() == old(self).calls().push(Call::Update(input_bit is One))
    { unimplemented!() }
}
/// A file read from its start, byte by byte, buffered or not: every byte in
/// order, or an error.
#[verifier::external_body]
pub struct Failed { _p: u8 }
#[verifier::external_body]
pub struct Input { _p: u8 }
impl Input {
    pub uninterp spec fn content(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<u8, Failed>>)
        ensures final(self).content() == old(self).content(),
            r is None ==> old(self).at() == old(self).content().len(),
            r matches Some(Ok(b)) ==> old(self).at() < old(self).content().len()
                && b == old(self).content()[old(self).at() as int] && final(self).at() == old(self).at() + 1
    { unimplemented!() }
}

// ---- what it should do -----------------------------------------------------------
pub proof fn mask_is_bit()
    ensures forall|b: u8, k: u64| k < 8 ==> ((#[trigger] (b & (1u8 << k)) != 0) <==> bit_of(b, k as int))
{
    assert(forall|b: u8, k: u64| k < 8 ==> ((#[trigger] (b & (1u8 << k)) != 0) <==> ((b >> k) & 1u8 == 1u8))) by (bit_vector);
}
/// The calls made when `n` bytes are done and the next one is at stage `s`: not
/// begun (0), or announced and `s - 1` of its bits (most significant first)
/// predicted and then shown.
pub open spec fn calls_to(c: Seq<u8>, n: nat, s: nat) -> Seq<Call> decreases n, s {
    if s == 0 { if n == 0 { Seq::empty() } else { calls_to(c, (n - 1) as nat, 9) } }
    else if s == 1 { calls_to(c, n, 0).push(Call::Start) }
    else { calls_to(c, n, (s - 1) as nat).push(Call::Predict).push(Call::Update(bit_of(c[n as int], 9 - s))) }
}
/// The cost at the same place: each bit adds the logarithm of the probability
/// that it had before it was shown.
pub open spec fn cost_to(c: Seq<u8>, n: nat, s: nat) -> Real decreases n, s {
    if s == 0 { if n == 0 { zero() } else { cost_to(c, (n - 1) as nat, 9) } }
    else if s == 1 { cost_to(c, n, 0) }
    else {
        let p = real(predicted(calls_to(c, n, (s - 1) as nat)));
        minus(cost_to(c, n, (s - 1) as nat), log_of(if bit_of(c[n as int], 9 - s) { rest_of_one(p) } else { p }))
    }
}
// What may be printed under each label, for a file with content `c`.
#[verifier::external_body] pub fn vx_print_total_cost_in_bits(x: Real, Ghost(c): Ghost<Seq<u8>>)
    requires x == cost_to(c, c.len(), 0) { unimplemented!() }
#[verifier::external_body] pub fn vx_print_total_cost_in_bytes(x: Real, Ghost(c): Ghost<Seq<u8>>)
    requires x == quotient(cost_to(c, c.len(), 0), real_of(8)) { unimplemented!() }
#[verifier::external_body] pub fn vx_print_input_length(x: u64, Ghost(c): Ghost<Seq<u8>>)
    requires x == c.len() { unimplemented!() }
#[verifier::external_body] pub fn vx_print_average_cost(x: Real, Ghost(c): Ghost<Seq<u8>>)
    requires x == quotient(cost_to(c, c.len(), 0), real_of(c.len() as int)) { unimplemented!() }
#[verifier::external_body] pub fn vx_print_compression_ratio(x: Real, Ghost(c): Ghost<Seq<u8>>)
    requires x == quotient(real_of(8 * c.len() as int), cost_to(c, c.len(), 0)) { unimplemented!() }
'''

RW = [
    (r"let (speed_\w+) = [^;]*\btotal_duration_secs\b[^;]*;", "", "(the same, the speeds)"),
    (r"println!\(\"[^\"]*\", (?:initialization_secs|total_duration_secs|speed_\w+)\);", "", "(the same, printing them)"),
    (r"println!\(\"[^\"{}]*\"\);", "", "lines without values are left out"),
    (r"println!\(\"([a-z ]+?)\s*= [^\"]*\", ([^;]*)\);", lambda m: "vx_print_%s(%s, Ghost(c));" % (m.group(1).replace(" ", "_"), m.group(2).strip()),
     "printing a value under a label is a call whose precondition says what belongs there"),
    (r"predictor\.print_state\(&\[[^;]*\]\);", "", "print_state is left out (C26)"),
    (r"((?:\b\w+|\([^()]*\))(?: as u\w+)*) as f64\b", r"vx_real((\1) as u64)", "a number as a real"),
    (r"/ 8\.0\b", "/ vx_real(8)", "(8 as a real)"),
    (r"Result::Ok\(\(\)\)|(?<![\w:])Ok\(\(\)\)", "Ok(())", ""),
    (r"let \w+ = SystemTime::now\(\);", "", "the clock is left out (it only times)"),
    (r"let \w+ = \{\s*let duration = [^{}]*\};", "", "(the same, the seconds it took)"),
    (r"let (\w+) = std::fs::File::open\(file_name\)\.expect\([^)]*\);", r"let \1 = vx_file;", "the opened file is an input read from its start; opening it is left out"),
    (r"\bf64\b", "Real", "machine reals are an opaque type with uninterpreted operations"),
    (r"(?<![\w.])0(?:\.0)?f64\b|(?<=: Real = )0\.0", "vx_zero()", "(their zero)"),
    (r"\b(\w+) -= ([\w.()]+?|\([^;]*\)\.\w+\(\));", r"\1 = vx_minus(\1, \2);", "(their difference: `x -= y` is x = x - y)"),
    (r"\b1\.0 - (\w+)\b(?!\s*[.(])", r"vx_one_minus(\1)", "(1 - x)"),
    (r"(?<= = )0\.0;", "vx_zero();", "(zero again)"),
    (r"for (\w+) in std::io::BufReader::new\((\w+)\)\.bytes\(\) \{",
     r"let mut vx_in = \2; let ghost c = vx_in.content(); #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] loop { let \1 = match vx_in.next() { Some(vx_x) => vx_x, None => break };",
     "a for loop over the bytes of the buffered file calls next until it gives None"),
    (r"let (\w+) = (\w+)\?;", r"let \1 = match \2 { Ok(vx_v) => vx_v, Err(vx_e) => return Err(vx_e) };", "`x?` is a match that returns the error"),
    (r"for (\w+) in \((\w+)\.\.=(\w+)\)\.rev\(\) \{", r"let mut vx_k: u64 = \3 + 1; while vx_k > \2 { vx_k = vx_k - 1; let \1 = vx_k;",
     "a for loop over (a..=b).rev() counts down (from an unsigned number)"),
    (r"let (\w+): Bit = \(([^;]*)\)\.into\(\);", r"let \1: Bit = Bit::from_bool(\2);", "`.into()` of a bool is From<bool> for Bit"),
]


def with_result(fn):
    """The function gives back what it counted and added up."""
    import sys
    vx = sys.modules.get('tools.vx') or sys.modules['vx']
    cost = re.search(r"let mut (\w+)(?:: f64 = 0\.0| = 0f64| = 0\.0);", fn.body)
    count = re.search(r"let mut (\w+)(?:: (u\w+) = 0| = 0(u\w+));", fn.body)
    if not cost or not count:
        raise vx.Lost("estimate_compression: no cost and count")
    # the names the contract uses
    for canon, found in (("total_cost_in_bits", cost), ("total_bytes", count),
                         ("predictor", re.search(r"let mut (\w+) = Predictor::new", fn.body)),
                         ("input_byte", re.search(r"let (\w+) = \w+\?;", fn.body))):
        if found and found.group(1) != canon and not re.search(r"\b%s\b" % canon, fn.body):
            fn.body = re.sub(r"\"[^\"]*\"|(?<![\w.])%s\b(?!\s*\()" % found.group(1),
                             lambda m: m.group(0) if m.group(0)[0] == '"' else canon, fn.body)
    fn.body, n = re.subn(r"(?:\bResult::)?\bOk\(\(\)\)\s*$", "Ok((total_cost_in_bits, total_bytes))\n", fn.body)
    if not n:
        raise vx.Lost("estimate_compression: does not end in Ok(())")
    fn.sig = "pub fn estimate_compression(vx_file: Input) -> Result<(Real, %s), Failed>" % (count.group(2) or count.group(3))


AT = """c == vx_file.content(), vx_in.content() == c, c.len() < 0x2000_0000_0000_0000,
    total_bytes <= c.len(), vx_in.at() == total_bytes, """
TARGET = dict(name="program", properties=("C28",), prelude=PRELUDE, rewrites=RW, units=[
    dict(kind="enum", file="src/bit/mod.rs", name="Bit", attr="#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"),
    dict(kind="impl", name="Bit", emit="impl Bit", file="src/bit/mod.rs", headers=["impl Bit"], only=["is_0", "is_1"],
         fns={"is_0": dict(spec="ensures res == (*self is Zero)"), "is_1": dict(spec="ensures res == (*self is One)")}),
    dict(kind="impl", name="Bit", emit="impl Bit", file="src/bit/mod.rs", headers=["impl From<bool> for Bit"],
         rename={"from": "from_bool"}, fns={"from": dict(spec="ensures res == (if value { Bit::One } else { Bit::Zero })")}),
    dict(kind="fn", file=FILE, name="estimate_compression", shape=with_result, spec=dict(
        spec="""requires vx_file.at() == 0, vx_file.content().len() < 0x2000_0000_0000_0000
ensures res matches Ok(r) ==> r.1 == vx_file.content().len() && r.0 == cost_to(vx_file.content(), r.1 as nat, 0)""",
        loops=[
            dict(inv="invariant_except_break " + AT + """
    predictor.calls() == calls_to(c, total_bytes as nat, 0), total_cost_in_bits == cost_to(c, total_bytes as nat, 0),
ensures total_bytes == vx_file.content().len(), total_cost_in_bits == cost_to(vx_file.content(), total_bytes as nat, 0),
decreases c.len() - total_bytes
"""),
            dict(inv="invariant " + AT.replace("vx_in.at() == total_bytes", "vx_in.at() == total_bytes + 1, total_bytes < c.len()") + """
    0 <= vx_k <= 8, input_byte == c[total_bytes as int],
    predictor.calls() == calls_to(c, total_bytes as nat, (9 - vx_k) as nat), total_cost_in_bits == cost_to(c, total_bytes as nat, (9 - vx_k) as nat),
decreases vx_k
""", begin="proof { mask_is_bit(); }\n", end=""),
        ])),
])
