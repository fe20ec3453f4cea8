"""C07: mixers (src/mixing/mixer.rs), for every number of inputs up to 30,
every weight, input and rate.  `TARGET`: a call within its protocol returns the
stated result; `PARTIAL`: whatever call returns was within its protocol."""
FILE = "src/mixing/mixer.rs"
TYPES = "src/fixed_point/types.rs"

PRELUDE = r'''
use vstd::prelude::*;
verus! {
global size_of usize == 8;

// ---- numbers: the contracts of C05, as its callers see them -------------------
pub open spec fn pow(k: int) -> int decreases k { if k <= 0 { 1 } else { 2 * pow(k - 1) } }
pub open spec fn mag(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn near(m: int, d: int) -> int { (2 * m + d) / (2 * d) }
/// x / d rounded to nearest, halves away from zero.
pub open spec fn round(x: int, d: int) -> int { if x < 0 { -near(-x, d) } else { near(x, d) } }
pub trait FixedPoint: Sized {
    type Raw: Copy;
    const FRACTIONAL_BITS: u8;
    spec fn val(&self) -> int;
    spec fn holds(v: int) -> bool;
    spec fn num(raw: Self::Raw) -> int;
    fn raw(&self) -> (r: Self::Raw) ensures Self::num(r) == self.val();
    fn new(raw: Self::Raw, fractional_bits: u8) -> (r: Self)
        requires fractional_bits == Self::FRACTIONAL_BITS, Self::holds(Self::num(raw))
        ensures r.val() == Self::num(raw);
}
/// Products far from the ends of 64 bits, with a result that fits.
pub open spec fn product(a: int, b: int, s: int, far: bool) -> int { round(a * b, pow(s)) }
pub mod fix_i32 {
    use super::*;
    #[verifier::external_body]
    pub fn mul<A: FixedPoint<Raw = i32>, B: FixedPoint<Raw = i32>, R: FixedPoint<Raw = i32>>(a: &A, b: &B) -> (r: R)
        requires A::FRACTIONAL_BITS + B::FRACTIONAL_BITS - R::FRACTIONAL_BITS == 31, mag(a.val() * b.val()) < 0x4000_0000_0000_0000,
            R::holds(round(a.val() * b.val(), pow(31)))
        ensures r.val() == round(a.val() * b.val(), pow(31))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_wide<A: FixedPoint<Raw = i32>, B: FixedPoint<Raw = i32>, R: FixedPoint<Raw = i64>>(a: &A, b: &B) -> (r: R)
        requires A::FRACTIONAL_BITS + B::FRACTIONAL_BITS - R::FRACTIONAL_BITS == 2, mag(a.val() * b.val()) < 0x4000_0000_0000_0000,
            R::holds(round(a.val() * b.val(), 4))
        ensures r.val() == round(a.val() * b.val(), 4)
    { unimplemented!() }
}
'''

def fixed(name, raw, holds):
    return r'''
impl FixedPoint for %(n)s {
    type Raw = %(r)s;
    open spec fn val(&self) -> int { self.0 as int }
    open spec fn holds(v: int) -> bool { %(h)s }
    open spec fn num(raw: %(r)s) -> int { raw as int }
    #[verifier::external_body]
    fn raw(&self) -> (r: %(r)s) { unimplemented!() }
    #[verifier::external_body]
    fn new(raw: %(r)s, fractional_bits: u8) -> (r: Self) { unimplemented!() }
''' % dict(n=name, r=raw, h=holds)

# derived Copy and Ord of the one-field tuple structs, and C05's add and sub
def opers(name, raw, order, sub_only=False):
    o = "impl Copy for %s {}\nimpl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\nimpl %s {\n" % (name, name, name)
    for f, op in (("add", "+"), ("sub", "-")):
        o += """    #[verifier::external_body]
    pub fn %s(&self, other: &Self) -> (r: Self)
        requires Self::holds(self.val() %s other.val())
        ensures r.val() == self.val() %s other.val()
    { unimplemented!() }
""" % (f, op, op)
    if order:
        for f, c in (("max", ">"), ("min", "<")):
            o += """    #[verifier::external_body]
    pub fn %s(self, other: Self) -> (r: Self)
        ensures r.val() == if self.val() %s other.val() { self.val() } else { other.val() }
    { unimplemented!() }
""" % (f, c)
    if name == "StretchedProbQ":
        o += """    #[verifier::external_body]
    pub fn to_fix_i32(&self) -> (r: StretchedProbD)
        requires mag(self.val()) < 0x4000_0000_0000_0000, StretchedProbD::holds(round(self.val(), 0x8_0000))
        ensures r.val() == round(self.val(), 0x8_0000)
    { unimplemented!() }
"""
    return o + "}\n"


FMTS = [("FractOnlyI32", "i32", "0 <= v <= i32::MAX", False, ["HALF"]),
        ("FractOnlyU32", "u32", "0 <= v <= i32::MAX", False, ["ONE_UNSAFE"]),
        ("StretchedProbD", "i32", "-ST_LIMIT <= v <= ST_LIMIT", False, ["ABSOLUTE_LIMIT"]),
        ("StretchedProbQ", "i64", "i64::MIN <= v <= i64::MAX", True, ["ZERO", "ABSOLUTE_LIMIT", "MAX", "MIN", "clamped"]),
        ("MixerWeight", "i32", "i32::MIN <= v <= i32::MAX", True, ["ABSOLUTE_LIMIT", "MAX", "MIN", "clamped"])]

SPEC = r'''
pub spec const ST_LIMIT: int = 0x180_0000;
pub spec const W_LIMIT: int = 0x100_0000;
/// The nearest value within the limit.
pub open spec fn clamp(x: int, limit: int) -> int { if x > limit { limit } else if x < -limit { -limit } else { x } }

#[verifier::external_body]
pub struct SquashLut { _p: u8 }
pub uninterp spec fn squashed(lut: &SquashLut, st: int) -> int;
impl SquashLut {
    /// C06: the probability depends on the argument only and is admissible.
    #[verifier::external_body]
    pub fn squash(&self, st: StretchedProbD) -> (r: FractOnlyU32)
        requires StretchedProbD::holds(st.val())
        ensures r.val() == squashed(self, st.val()), 0 < r.val() <= i32::MAX
    { unimplemented!() }
}
#[verifier::external_body]
pub struct DeceleratingEstimatorRates { _p: u8 }
pub uninterp spec fn rate(lut: &DeceleratingEstimatorRates, count: int) -> int;
impl DeceleratingEstimatorRates {
    /// C27: a rate for every count.
    #[verifier::external_body]
    pub fn at(&self, count: u16) -> (r: &FractOnlyU32)
        requires count < 1024
        ensures r.val() == rate(self, count as int), 0 <= r.val() <= i32::MAX
    { unimplemented!() }
}
pub enum Bit { Zero, One }
pub struct DeceleratingEstimator;

// ---- the mixer ---------------------------------------------------------------
/// Weighted sum of the first n inputs.
pub open spec fn dot(ins: Seq<MixerInput>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { dot(ins, n - 1) + round(ins[n - 1].weight.val() * ins[n - 1].prediction_st.val(), 4) }
}
pub open spec fn mixed(ins: Seq<MixerInput>) -> int { round(clamp(dot(ins, ins.len() as int), 0xc00_0000_0000), 0x8_0000) }
/// The step of a weight whose input is `st`, for an error `err`.
pub open spec fn step(st: int, err: int, rate: int) -> int {
    round(st * round(err * round(0x4000_0000 * rate, 0x8000_0000), 0x8000_0000), 0x8000_0000)
}
pub open spec fn missed(bit: Bit, sq: int) -> int { if bit is Zero { 0x8000_0000 - sq } else { sq } }
pub open spec fn moved(w: int, st: int, bit: Bit, sq: int, rate: int) -> int {
    let s = step(st, missed(bit, sq), rate);
    clamp(if bit is Zero { w + s } else { w - s }, W_LIMIT)
}
pub open spec fn is_set(mask: u32, i: int) -> bool { mask & (1u32 << (i as u32)) != 0 }
pub open spec fn all_set(mask: u32, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] is_set(mask, i) }
pub open spec fn none_set(mask: u32) -> bool { forall|i: int| 0 <= i < 32 ==> !#[trigger] is_set(mask, i) }
pub open spec fn wf(ins: Seq<MixerInput>, com: MixerCommon) -> bool {
    &&& ins.len() <= 30
    &&& com.inputs_mask < (1u32 << (ins.len() as u32))
    &&& com.update_factor_index <= UPDATE_FACTOR_INDEX_LIMIT
    &&& forall|i: int| 0 <= i < ins.len() ==> #[trigger] in_limits(ins[i])
}
pub open spec fn in_limits(x: MixerInput) -> bool {
    -W_LIMIT <= x.weight.val() <= W_LIMIT && StretchedProbD::holds(x.prediction_st.val())
}

// ---- lemmas --------------------------------------------------------------------
pub proof fn pow31() ensures pow(31) == 0x8000_0000, pow(2) == 4, pow(19) == 0x8_0000 {
    assert(pow(31) == 0x8000_0000 && pow(2) == 4 && pow(19) == 0x8_0000) by (compute);
}
pub proof fn near_le(m: int, d: int, b: int)
    requires 0 <= m <= b * d, d >= 1, b >= 0
    ensures 0 <= near(m, d) <= b
{
    let r = near(m, d);
    assert(r * (2 * d) <= 2 * m + d < (r + 1) * (2 * d)) by (nonlinear_arith) requires r == (2 * m + d) / (2 * d), d >= 1;
    assert(r <= b) by (nonlinear_arith) requires r * (2 * d) <= 2 * m + d, m <= b * d, d >= 1;
    assert(r >= 0) by (nonlinear_arith) requires 2 * m + d < (r + 1) * (2 * d), m >= 0, d >= 1;
}
pub proof fn round_le(x: int, d: int, b: int)
    requires mag(x) <= b * d, d >= 1, b >= 0
    ensures mag(round(x, d)) <= b, x >= 0 ==> round(x, d) >= 0, x <= 0 ==> round(x, d) <= 0
{ near_le(mag(x), d, b); if x == 0 { near_le(0, d, 0); assert(b * d >= 0) by (nonlinear_arith) requires b >= 0, d >= 1; } }
pub proof fn mul_le(x: int, y: int, a: int, b: int)
    requires mag(x) <= a, mag(y) <= b
    ensures mag(x * y) <= a * b, (x >= 0 && y >= 0 || x <= 0 && y <= 0) ==> x * y >= 0, (x >= 0 && y <= 0 || x <= 0 && y >= 0) ==> x * y <= 0
{
    let (p, q) = (mag(x), mag(y));
    assert(p * q <= a * b) by (nonlinear_arith) requires 0 <= p <= a, 0 <= q <= b;
    assert(p * q >= 0) by (nonlinear_arith) requires p >= 0, q >= 0;
    assert(x * y == p * q || x * y == -(p * q)) by (nonlinear_arith) requires p == x || p == -x, q == y || q == -y;
    assert((x >= 0 && y >= 0 || x <= 0 && y <= 0) ==> x * y >= 0) by (nonlinear_arith);
    assert((x >= 0 && y <= 0 || x <= 0 && y >= 0) ==> x * y <= 0) by (nonlinear_arith);
}
pub spec const TERM: int = 0x6000_0000_0000;
pub proof fn term(x: MixerInput)
    requires in_limits(x)
    ensures mag(x.weight.val() * x.prediction_st.val()) <= 4 * TERM, mag(round(x.weight.val() * x.prediction_st.val(), 4)) <= TERM
{
    mul_le(x.weight.val(), x.prediction_st.val(), W_LIMIT, ST_LIMIT);
    round_le(x.weight.val() * x.prediction_st.val(), 4, TERM);
}
pub proof fn dot_le(ins: Seq<MixerInput>, n: int)
    requires 0 <= n <= ins.len() <= 30, forall|i: int| 0 <= i < ins.len() ==> #[trigger] in_limits(ins[i])
    ensures mag(dot(ins, n)) <= n * TERM
    decreases n
{ if n > 0 { dot_le(ins, n - 1); assert(in_limits(ins[n - 1])); term(ins[n - 1]); } }
/// The result of mixing lies within the supported limit.
pub proof fn mixed_le(ins: Seq<MixerInput>)
    ensures mag(clamp(dot(ins, ins.len() as int), 0xc00_0000_0000)) <= 0xc00_0000_0000, mag(mixed(ins)) <= ST_LIMIT
{ round_le(clamp(dot(ins, ins.len() as int), 0xc00_0000_0000), 0x8_0000, ST_LIMIT); }
pub proof fn rates(err: int, rate: int)
    requires 0 <= err <= i32::MAX, 0 <= rate <= i32::MAX
    ensures 0 <= 0x4000_0000 * rate < 0x2000_0000_0000_0000, 0 <= round(0x4000_0000 * rate, 0x8000_0000) <= 0x4000_0000,
        0 <= err * round(0x4000_0000 * rate, 0x8000_0000) < 0x2000_0000_0000_0000,
        0 <= round(err * round(0x4000_0000 * rate, 0x8000_0000), 0x8000_0000) <= 0x4000_0000
{
    round_le(0x4000_0000 * rate, 0x8000_0000, 0x4000_0000);
    let f = round(0x4000_0000 * rate, 0x8000_0000);
    mul_le(err, f, 0x7fff_ffff, 0x4000_0000);
    round_le(err * f, 0x8000_0000, 0x4000_0000);
}
pub proof fn stepped(st: int, err: int, rate: int)
    requires 0 <= err <= i32::MAX, 0 <= rate <= i32::MAX, -ST_LIMIT <= st <= ST_LIMIT
    ensures mag(st * round(err * round(0x4000_0000 * rate, 0x8000_0000), 0x8000_0000)) < 0x2000_0000_0000_0000,
        mag(step(st, err, rate)) <= ST_LIMIT / 2, st >= 0 ==> step(st, err, rate) >= 0, st <= 0 ==> step(st, err, rate) <= 0
{
    rates(err, rate);
    let f = round(err * round(0x4000_0000 * rate, 0x8000_0000), 0x8000_0000);
    mul_le(st, f, ST_LIMIT, 0x4000_0000);
    round_le(st * f, 0x8000_0000, ST_LIMIT / 2);
}
/// An update moves a weight in the direction that reduces the error on the
/// coded bit (towards the input's sign for a zero, away from it for a one), by
/// at most the input's magnitude, and leaves it within the weight limit.
pub proof fn direction(w: int, st: int, bit: Bit, sq: int, rate: int)
    requires -W_LIMIT <= w <= W_LIMIT, -ST_LIMIT <= st <= ST_LIMIT, 0 < sq <= i32::MAX, 0 <= rate <= i32::MAX
    ensures -W_LIMIT <= moved(w, st, bit, sq, rate) <= W_LIMIT, mag(moved(w, st, bit, sq, rate) - w) <= mag(st),
        (bit is Zero) == (st >= 0) && st != 0 ==> moved(w, st, bit, sq, rate) >= w,
        (bit is Zero) != (st >= 0) && st != 0 ==> moved(w, st, bit, sq, rate) <= w,
        st == 0 ==> moved(w, st, bit, sq, rate) == w
{
    let e = missed(bit, sq);
    stepped(st, e, rate);
    rates(e, rate);
    let f = round(e * round(0x4000_0000 * rate, 0x8000_0000), 0x8000_0000);
    mul_le(st, f, mag(st), 0x4000_0000);
    assert(mag(st) * 0x4000_0000 <= mag(st) * 0x8000_0000);
    round_le(st * f, 0x8000_0000, mag(st));
}
pub proof fn top_bit(n: u32, mask: u32)
    requires n <= 31
    ensures n >= 1 ==> (mask < (1u32 << n) && is_set(mask, n - 1) <==> (1u32 << ((n - 1) as u32)) <= mask < (1u32 << n)),
        (1u32 << 0u32) == 1, (1u32 << n) >= 1, n >= 1 ==> (1u32 << n) == 2 * (1u32 << ((n - 1) as u32))
{
    if n >= 1 {
        let k: u32 = (n - 1) as u32;
        assert((mask < (1u32 << n) && mask & (1u32 << k) != 0) <==> ((1u32 << k) <= mask && mask < (1u32 << n))) by (bit_vector) requires n <= 31, k + 1 == n;
        assert((1u32 << n) == 2 * (1u32 << k)) by (bit_vector) requires n <= 31, k + 1 == n;
    }
    assert((1u32 << 0u32) == 1 && (n <= 31 ==> (1u32 << n) >= 1)) by (bit_vector);
}
/// A mask below 2^n is full exactly if every input was set.
pub proof fn full(n: u32, mask: u32)
    requires n <= 31, mask < (1u32 << n)
    ensures mask == (1u32 << n) - 1 <==> all_set(mask, n as int)
    decreases n
{
    top_bit(n, mask);
    if n >= 1 {
        let k: u32 = (n - 1) as u32;
        top_bit(k, mask);
        if is_set(mask, k as int) {
            let b = 1u32 << k;
            let low = (mask - b) as u32;
            full(k, low);
            assert(low == mask & !b) by (bit_vector) requires mask >= 1u32 << k, mask < 1u32 << n, b == 1u32 << k, low == sub(mask, b), n <= 31, k + 1 == n;
            assert forall|i: int| 0 <= i < k implies #[trigger] is_set(low, i) == is_set(mask, i) by {
                let j = i as u32;
                assert((mask & !(1u32 << k)) & (1u32 << j) == mask & (1u32 << j)) by (bit_vector) requires j < k, k <= 31;
            }
            if all_set(mask, n as int) { assert forall|i: int| 0 <= i < k implies #[trigger] is_set(low, i) by { assert(is_set(mask, i)); } }
            if all_set(low, k as int) { assert forall|i: int| 0 <= i < n implies #[trigger] is_set(mask, i) by { if i < k { assert(is_set(low, i)); } } }
        } else {
            assert(mask < b_of(k));
            assert(!all_set(mask, n as int)) by { assert(!is_set(mask, k as int)); }
        }
    }
}
pub open spec fn b_of(k: u32) -> u32 { 1u32 << k }
/// Setting one more bit.
pub proof fn one_more(n: u32, mask: u32, i: u32)
    requires i < n, n <= 31, mask < (1u32 << n)
    ensures (mask | (1u32 << i)) < (1u32 << n), is_set(mask | (1u32 << i), i as int),
        forall|k: int| 0 <= k < 32 && k != i ==> #[trigger] is_set(mask | (1u32 << i), k) == is_set(mask, k)
{
    assert((mask | (1u32 << i)) < (1u32 << n) && (mask | (1u32 << i)) & (1u32 << i) != 0) by (bit_vector) requires i < n, n <= 31, mask < (1u32 << n);
    assert forall|k: int| 0 <= k < 32 && k != i implies #[trigger] is_set(mask | (1u32 << i), k) == is_set(mask, k) by {
        let j = k as u32;
        assert((mask | (1u32 << i)) & (1u32 << j) == mask & (1u32 << j)) by (bit_vector) requires i != j, i < 32, j < 32;
    }
}
pub proof fn empty_mask(n: u32) requires n <= 31 ensures 0u32 < (1u32 << n), none_set(0) {
    assert(0u32 < (1u32 << n)) by (bit_vector) requires n <= 31;
    assert forall|k: int| 0 <= k < 32 implies !#[trigger] is_set(0, k) by { let j = k as u32; assert(0u32 & (1u32 << j) == 0) by (bit_vector); }
}
/// The run-time checks of the code, where they may fire (partial target): the
/// call returns only if the condition holds.
#[verifier::external_body]
pub fn vx_stop_unless(c: bool)
    ensures c
{ if !c { panic!() } }
'''

DATA_SPECS = r'''
    spec fn ins(&self) -> Seq<MixerInput>;
    spec fn com(&self) -> MixerCommon;
    fn size(&self) -> (r: usize)
        ensures r == self.ins().len();
    fn inputs(&self) -> (r: &[MixerInput])
        ensures r@ == self.ins();
    fn inputs_mut(&mut self) -> (r: &mut [MixerInput])
        ensures r@ == old(self).ins(), final(self).ins() == final(r)@, final(self).com() == old(self).com();
    fn common(&self) -> (r: &MixerCommon)
        ensures *r == self.com();
    fn common_mut(&mut self) -> (r: &mut MixerCommon)
        ensures *r == old(self).com(), final(self).com() == *final(r), final(self).ins() == old(self).ins();
'''


def build(partial):
    def req(*cs):
        cs = [c for c in cs if c]
        return "requires " + ", ".join(cs) + "\n" if cs else ""

    def tot(c):
        return "" if partial else c
    units = []
    for n, raw, holds, order, consts in FMTS:
        units.append(dict(kind="struct", file=TYPES, name=n))
        units.append(dict(kind="impl", file=TYPES, name="fixed_point::types::" + n, emit=fixed(n, raw, holds).replace(" {", " {", 1).rstrip().split("{", 1)[0].strip(),
                          inside=fixed(n, raw, holds).split("{", 1)[1], headers=["impl FixedPoint for " + n], only=["FRACTIONAL_BITS"], fns={}))
        fns = {}
        if "clamped" in consts:
            lim, ty = ("0xc00_0000_0000", "i64") if n == "StretchedProbQ" else ("0x100_0000", "i32")
            c, s = ("12", "40") if n == "StretchedProbQ" else ("8", "21")
            fns["clamped"] = dict(spec="ensures res.val() == clamp(self.val(), %s)" % lim,
                                  begin="proof { assert((%s%s << %su8) == %s && ((-(%s%s << %su8)) == -(%s))) by (bit_vector); }\n" % (c, ty, s, lim, c, ty, s, lim))
        units.append(dict(kind="impl", file=TYPES, name="fixed_point::types::" + n, emit="impl " + n, headers=["impl " + n], only=consts, fns=fns))
        units.append(dict(kind="text", text=opers(n, raw, order)))
    units.append(dict(kind="text", text=SPEC))
    units.append(dict(kind="impl", file="src/estimators/decelerating.rs", name="estimators::decelerating::DeceleratingEstimator",
                      emit="impl DeceleratingEstimator", headers=["impl DeceleratingEstimator"], only=["MAX_COUNT"], fns={}))
    units.append(dict(kind="const", file="src/lib.rs", name="DO_CHECKS"))
    units.append(dict(kind="const", file=FILE, name="UPDATE_FACTOR_INDEX_LIMIT"))
    units.append(dict(kind="struct", file=FILE, name="MixerInput"))
    units.append(dict(kind="struct", file=FILE, name="MixerCommon"))
    units.append(dict(kind="text", text="pub trait MixerData: Sized {\n" + DATA_SPECS + "}\n"))
    units.append(dict(kind="fn", file=FILE, name="fixed_update_factor", spec=dict(
        spec="ensures res.val() == 0x4000_0000", begin="proof { assert((1i32 << 30u8) == 0x4000_0000) by (bit_vector); }\n")))
    same = "final(self).ins().len() == old(self).ins().len()"
    inset = [tot("0 <= index < self.ins().len()"), tot("is_set(self.com().inputs_mask, index as int)")]
    got = "0 <= index < self.ins().len(), is_set(self.com().inputs_mask, index as int)"
    loop = dict(
        inv="""invariant vx_n == vx_s@.len(), vx_s@.len() == old(self).ins().len(), vx_n <= 30, wf(old(self).ins(), old(self).com()),
    d.0 == update_factor.val(), update_factor.val() == round(missed(input_bit, sq) * round(0x4000_0000 * rt, 0x8000_0000), 0x8000_0000),
    0 <= missed(input_bit, sq) <= i32::MAX, 0 <= rt <= i32::MAX, 0 < sq <= i32::MAX,
    forall|i: int| 0 <= i < vx_s@.len() ==> (#[trigger] vx_s@[i]).prediction_st == old(self).ins()[i].prediction_st
        && vx_s@[i].prediction_sq == old(self).ins()[i].prediction_sq
        && vx_s@[i].weight.val() == (if i < vx_i { moved(old(self).ins()[i].weight.val(), old(self).ins()[i].prediction_st.val(), input_bit, sq, rt) } else { old(self).ins()[i].weight.val() })""",
        begin="")
    begin_loop = """proof {
    assert(in_limits(old(self).ins()[vx_i as int]));
    assert(vx_s@[vx_i as int].weight.val() == old(self).ins()[vx_i as int].weight.val());
    stepped(old(self).ins()[vx_i as int].prediction_st.val(), missed(input_bit, sq), rt); pow31();
}
"""
    loop = dict(inv=loop["inv"].replace("d.0 == update_factor.val(), ", ""), begin=begin_loop)
    trait = {
        "prediction_sq": dict(spec=req(*inset) + "ensures res == self.ins()[index as int].prediction_sq, " + got),
        "prediction_st": dict(spec=req(*inset) + "ensures res == self.ins()[index as int].prediction_st, " + got),
        "weight": dict(spec="requires index < self.ins().len()\nensures res == self.ins()[index as int].weight"),
        "assert_input_is_set": dict(spec=req("self.ins().len() <= 30", *inset) + "ensures " + got),
        "set_input": dict(
            spec=req("wf(old(self).ins(), old(self).com())", "StretchedProbD::holds(prediction_st.val())", tot("index < old(self).ins().len()"),
                     tot("!is_set(old(self).com().inputs_mask, index as int)"))
            + """ensures index < old(self).ins().len(), !is_set(old(self).com().inputs_mask, index as int), wf(final(self).ins(), final(self).com()),
    is_set(final(self).com().inputs_mask, index as int),
    forall|k: int| 0 <= k < 32 && k != index ==> #[trigger] is_set(final(self).com().inputs_mask, k) == is_set(old(self).com().inputs_mask, k),
    final(self).com().update_factor_index == old(self).com().update_factor_index,
    final(self).ins() == old(self).ins().update(index as int, MixerInput { weight: old(self).ins()[index as int].weight, prediction_sq, prediction_st }),""",
            begin="proof { if index < self.ins().len() { one_more(self.ins().len() as u32, self.com().inputs_mask, index as u32); } }\n",
            end="""
proof {
    assert(self.ins() =~= old(self).ins().update(index as int, MixerInput { weight: old(self).ins()[index as int].weight, prediction_sq, prediction_st }));
    assert forall|i: int| 0 <= i < self.ins().len() implies #[trigger] in_limits(self.ins()[i]) by { assert(in_limits(old(self).ins()[i])); }
}
"""),
        "mix_all": dict(
            spec=req("wf(self.ins(), self.com())", tot("all_set(self.com().inputs_mask, self.ins().len() as int)"))
            + """ensures all_set(self.com().inputs_mask, self.ins().len() as int),
    res.1.val() == mixed(self.ins()), -ST_LIMIT <= res.1.val() <= ST_LIMIT, res.0.val() == squashed(squash_lut, res.1.val()), 0 < res.0.val() <= i32::MAX,""",
            begin="proof { full(self.ins().len() as u32, self.com().inputs_mask); top_bit(self.ins().len() as u32, 0); mixed_le(self.ins()); pow31(); }\n",
            loops=[dict(inv="""invariant vx_s@ == self.ins(), vx_n == vx_s@.len(), wf(self.ins(), self.com()), result.val() == dot(self.ins(), vx_i as int)""",
                        begin="proof { dot_le(self.ins(), vx_i as int); assert(in_limits(self.ins()[vx_i as int])); term(self.ins()[vx_i as int]); pow31(); }\n")]),
        "update_and_reset": dict(
            spec=req("wf(old(self).ins(), old(self).com())", "0 < mix_result_sq.val() <= i32::MAX", tot("all_set(old(self).com().inputs_mask, old(self).ins().len() as int)"),
                     tot("old(self).com().update_factor_index <= max_update_factor_index <= UPDATE_FACTOR_INDEX_LIMIT"))
            + """ensures all_set(old(self).com().inputs_mask, old(self).ins().len() as int), wf(final(self).ins(), final(self).com()),
    none_set(final(self).com().inputs_mask), final(self).ins().len() == old(self).ins().len(),
    old(self).com().update_factor_index <= max_update_factor_index <= UPDATE_FACTOR_INDEX_LIMIT,
    final(self).com().update_factor_index == (if old(self).com().update_factor_index < max_update_factor_index { old(self).com().update_factor_index + 1 } else { max_update_factor_index as int }),
    forall|i: int| 0 <= i < old(self).ins().len() ==> (#[trigger] final(self).ins()[i]).prediction_st == old(self).ins()[i].prediction_st
        && final(self).ins()[i].prediction_sq == old(self).ins()[i].prediction_sq
        && final(self).ins()[i].weight.val() == moved(old(self).ins()[i].weight.val(), old(self).ins()[i].prediction_st.val(), input_bit,
            mix_result_sq.val(), rate(d_estimator_rates_lut, old(self).com().update_factor_index as int)),""",
            begin="""proof { full(self.ins().len() as u32, self.com().inputs_mask); top_bit(self.ins().len() as u32, 0); empty_mask(self.ins().len() as u32); pow31();
    assert((1u32 << 31u8) == 0x8000_0000u32) by (bit_vector); }
let ghost sq = mix_result_sq.val();
let ghost rt = rate(d_estimator_rates_lut, self.com().update_factor_index as int);
""",
            insert=[(r"let dynamic_update_factor[^;]*;", "\nproof { rates(missed(input_bit, sq), rt); }\n")],
            loops=[dict(loop, inv=loop["inv"] + ", input_bit is " + b) for b in ("Zero", "One")],
            end="""
proof {
    assert forall|i: int| 0 <= i < self.ins().len() implies #[trigger] in_limits(self.ins()[i]) by {
        assert(in_limits(old(self).ins()[i]));
        direction(old(self).ins()[i].weight.val(), old(self).ins()[i].prediction_st.val(), input_bit, sq, rt);
    }
}
"""),
    }
    units.append(dict(kind="fn", file=FILE, name="update_factor_index", spec=dict(spec="ensures res == this.com().update_factor_index")))
    trait["prediction_sq"]["spec"] = trait["prediction_sq"]["spec"].replace("requires ", "requires self.ins().len() <= 30, ") if not partial else "requires self.ins().len() <= 30\n" + trait["prediction_sq"]["spec"]
    trait["prediction_st"]["spec"] = trait["prediction_st"]["spec"].replace("requires ", "requires self.ins().len() <= 30, ") if not partial else "requires self.ins().len() <= 30\n" + trait["prediction_st"]["spec"]
    units.append(dict(kind="impl", file=FILE, name="mixing::mixer::Mixer", emit="pub trait Mixer: MixerData", headers=["pub trait Mixer where Self: MixerData"], fns=trait))
    for m in ("1", "2", "3", "4", "5", "N"):
        n = "Mixer" + m
        units.append(dict(kind="struct", file=FILE, name=n))
        if m != "N":
            units.append(dict(kind="text", text="impl %s {\n" % n))
            units.append(dict(kind="text", text="}\n"))
            units.append(dict(kind="impl", file=FILE, name="mixing::mixer::" + n, emit="impl " + n, headers=["impl FixedSizeMixer for " + n], only=["SIZE"], fns={}))
        units.append(dict(kind="impl", file=FILE, name="mixing::mixer::" + n, emit="impl MixerData for " + n, headers=["impl MixerData for " + n],
                          inside="    open spec fn ins(&self) -> Seq<MixerInput> { self.inputs@ }\n    open spec fn com(&self) -> MixerCommon { self.common }\n",
                          fns={k: {} for k in ("size", "inputs", "inputs_mut", "common", "common_mut")}))
        units.append(dict(kind="text", text="impl Mixer for %s {}\n" % n))
    return units


REWRITES = [
    (r"for input in self\.inputs\(\)\.iter\(\) \{", "let vx_s = self.inputs();\nlet vx_n = vx_s.len();\nfor vx_i in 0..vx_n {\nlet input = &vx_s[vx_i];",
     "iteration over a slice's iter() as the index loop it stands for"),
    (r"for input in self\.inputs_mut\(\)\.iter_mut\(\) \{", "let vx_s = self.inputs_mut();\nlet vx_n = vx_s.len();\nfor vx_i in 0..vx_n {\nlet input = &mut vx_s[vx_i];",
     "iteration over a slice's iter_mut() as the index loop it stands for"),
    (r"<T: Mixer>", "<T: MixerData>", "the bound Mixer is written MixerData, which implies it (blanket impl)"),
    (r"pub const (M..): Self =\s*(\w+)\(-\(Self::ABSOLUTE_LIMIT << Self::FRACTIONAL_BITS\)\);",
     lambda m: "pub exec const %s: Self\n    ensures Self::%s.0 == -%s\n{ proof { assert((12i64 << 40u8) == 0xc00_0000_0000 && (8i32 << 21u8) == 0x100_0000) by (bit_vector); } %s(-(Self::ABSOLUTE_LIMIT << Self::FRACTIONAL_BITS)) }" % (
         m.group(1), m.group(1), "0xc00_0000_0000" if m.group(2) == "StretchedProbQ" else "0x100_0000", m.group(2)),
     "the negative limits get a contract, their expression as written"),
    (r"^const UPDATE", "pub const UPDATE", "the limit is made readable in specifications"),
    (r"d_estimator_rates_lut\[(update_factor_index\(self\))\]", r"d_estimator_rates_lut.at(\1)", "indexing of the rate table as a call (contract of C27)"),
]
TARGET = dict(prelude=PRELUDE, units=build(False), rewrites=REWRITES)
PARTIAL = dict(TARGET, units=build(True), partial=True)
