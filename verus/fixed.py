"""C05: fixed-point arithmetic (src/fixed_point/{mod,types}.rs), generic over
every pair or triple of formats."""
FILE = "src/fixed_point/mod.rs"
TYPES = "src/fixed_point/types.rs"
W = dict(i16=16, u16=16, i32=32, u32=32, i64=64, u64=64)
SIGNED = ("i16", "i32", "i64")
UNSIGNED = ("u16", "u32", "u64")


def std_specs():
    o = []
    for t in SIGNED:
        lo = "" if t in UNSIGNED else "else if a + b < %s::MIN { %s::MIN as int } " % (t, t)
        o.append("""pub assume_specification [<%s>::saturating_add] (a: %s, b: %s) -> (r: %s)
    ensures r == if a + b > %s::MAX { %s::MAX as int } %selse { a + b };""" % (t, t, t, t, t, t, lo))
        if t in SIGNED:
            o.append("""pub assume_specification [<%s>::signum] (a: %s) -> (r: %s)
    ensures r == if a > 0 { 1int } else if a < 0 { -1 } else { 0 };
pub assume_specification [<%s>::min_value] () -> (r: %s) ensures r == %s::MIN;
pub assume_specification [<%s>::checked_neg] (a: %s) -> (r: Option<%s>)
    ensures r == if a == %s::MIN { None } else { Some((-a) as %s) };""" % ((t,) * 11))
    o.append("pub assume_specification [<u32>::max_value] () -> (r: u32) ensures r == u32::MAX;")
    for t in ("i32", "i64"):
        o.append("pub assume_specification [<%s>::max_value] () -> (r: %s) ensures r == %s::MAX;" % (t, t, t))
    return "\n".join(o)


def bit_lemmas():
    o = []
    for t, w in W.items():
        top = w - 2 if t in SIGNED else w - 1
        o.append("""
pub proof fn one_%(t)s(k: u8)
    requires k <= %(top)d
    ensures (1%(t)s << k) == pow(k as int), pow(k as int) >= 1
    decreases k
{
    if k == 0 { assert((1%(t)s << 0u8) == 1) by (bit_vector); reveal_with_fuel(pow, 2); }
    else {
        one_%(t)s((k - 1) as u8);
        let j: u8 = (k - 1) as u8;
        assert((1%(t)s << ((j + 1) as u8)) == 2 * (1%(t)s << j)) by (bit_vector) requires j < %(top)d;
        pow_step(j as int);
    }
}
/// A left shift that loses nothing multiplies, and only such a one.
pub proof fn shl_%(t)s(x: %(t)s, k: u8)
    requires k < %(w)d
    ensures ((x << k) >> k) == x <==> %(t)s::MIN <= x * pow(k as int) <= %(t)s::MAX, ((x << k) >> k) == x ==> (x << k) == x * pow(k as int)
    decreases k
{
    if k == 0 { assert((x << 0u8) == x && ((x << 0u8) >> 0u8) == x) by (bit_vector); reveal_with_fuel(pow, 2); }
    else {
        let j: u8 = (k - 1) as u8;
        shl_%(t)s(x, j);
        pow_step(j as int);
        let (y, z) = (x << j, x << k);
        let p = x * pow(j as int);
        assert(x * pow(k as int) == 2 * p) by (nonlinear_arith) requires pow(k as int) == 2 * pow(j as int), p == x * pow(j as int);
        assert(((z >> k) == x) <==> ((y >> j) == x && %(t)s::MIN <= 2 * y <= %(t)s::MAX)) by (bit_vector)
            requires k == j + 1, j < %(w)d - 1, y == x << j, z == x << k;
        assert((z >> k) == x ==> z == 2 * y) by (bit_vector)
            requires k == j + 1, j < %(w)d - 1, y == x << j, z == x << k;
    }
}
pub proof fn shr_%(t)s(x: %(t)s, k: u8)
    requires k < %(w)d
    ensures (x >> k) == x as int / pow(k as int)
    decreases k
{
    if k == 0 { assert((x >> 0u8) == x) by (bit_vector); reveal_with_fuel(pow, 2); }
    else {
        let j: u8 = (k - 1) as u8;
        shr_%(t)s(x, j);
        pow_step(j as int); pow_pos(j as int);
        let (y, z) = (x >> j, x >> k);
        assert(2 * z <= y && y <= 2 * z + 1) by (bit_vector) requires k == j + 1, j < %(w)d - 1, y == x >> j, z == x >> k;
        let p = pow(j as int);
        assert(y * p <= x < (y + 1) * p) by (nonlinear_arith) requires y == x as int / p, p >= 1;
        assert(z * (2 * p) <= x < (z + 1) * (2 * p)) by (nonlinear_arith) requires y * p <= x < (y + 1) * p, 2 * z <= y, y <= 2 * z + 1, p >= 1;
        quotient(x as int, 2 * p, z as int);
    }
}
""" % dict(t=t, w=w, top=top))
        if t in SIGNED:
            o.append("""
pub proof fn sign_%(t)s(s: %(t)s, k: u8)
    requires k <= %(top)d, -1 <= s <= 1
    ensures (s << k) == if s == 0 { 0 } else if s == 1 { pow(k as int) } else { -pow(k as int) }
{
    one_%(t)s(k);
    assert((0%(t)s << k) == 0) by (bit_vector);
    assert(((-1%(t)s) << k) == -(1%(t)s << k)) by (bit_vector) requires k <= %(top)d;
    if s == 0 { assert(s == 0%(t)s); } else if s == 1 { assert(s == 1%(t)s); } else { assert(s == -1%(t)s); }
}
pub proof fn top_%(t)s()
    ensures (1%(t)s << %(m)du8) == %(t)s::MIN, pow(%(m)d) == -(%(t)s::MIN as int)
{
    assert((1%(t)s << %(m)du8) == %(t)s::MIN) by (bit_vector);
    pow_step(%(top)d); one_%(t)s(%(top)du8);
    assert((1%(t)s << %(top)du8) == %(half)d) by (bit_vector);
}
""" % dict(t=t, top=top, m=w - 1, half=1 << (w - 2)))
    return "".join(o)


PRELUDE = r'''
use vstd::prelude::*;
verus! {
''' + std_specs() + r'''

// ---- vocabulary -------------------------------------------------------------
pub open spec fn pow(k: int) -> int decreases k { if k <= 0 { 1 } else { 2 * pow(k - 1) } }
pub proof fn pow_step(k: int) requires k >= 0 ensures pow(k + 1) == 2 * pow(k) { }
pub proof fn pow_pos(k: int) requires k >= 0 ensures pow(k) >= 1 decreases k { if k > 0 { pow_pos(k - 1); } }
pub proof fn pow_le(k: int, m: int) requires 0 <= k <= m ensures 1 <= pow(k) <= pow(m) decreases m { pow_pos(k); if k < m { pow_le(k, m - 1); } }
pub open spec fn mag(x: int) -> int { if x < 0 { -x } else { x } }
/// Magnitude of x / d rounded to nearest, halves away from zero.
pub open spec fn near(m: int, d: int) -> int { (2 * m + d) / (2 * d) }
/// r is x / d rounded to nearest, halves away from zero; within half a divisor
/// of the largest magnitude `max` it may be one unit nearer to zero.
pub open spec fn rounded(x: int, d: int, r: int, max: int) -> bool {
    &&& mag(x) + d / 2 <= max ==> mag(r) == near(mag(x), d)
    &&& mag(r) == near(mag(x), d) || mag(r) + 1 == near(mag(x), d)
    &&& r == 0 || (r < 0) == (x < 0)
}
/// The exact result of moving x by `s` fractional bits (s > 0: coarser).
pub open spec fn moved(x: int, s: int, r: int, max: int) -> bool {
    if s > 0 { rounded(x, pow(s), r, max) } else { r == x * pow(-s) }
}

pub proof fn quotient(x: int, d: int, q: int)
    requires d > 0, q * d <= x < (q + 1) * d
    ensures x / d == q
{
    assert((q + 1) * d == q * d + d) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, d, q, x - q * d);
}
/// Adding half the divisor and truncating rounds to nearest.
pub proof fn half_up(m: int, d: int, r: int)
    requires m >= 0, d >= 1, r == (m + d / 2) / d
    ensures r == near(m, d), r >= 0
{
    let t = m + d / 2;
    assert(r * d <= t < (r + 1) * d && r >= 0) by (nonlinear_arith) requires r == t / d, d >= 1, t >= 0;
    assert((r + 1) * d == r * d + d) by (nonlinear_arith);
    assert(r * (2 * d) == 2 * (r * d)) by (nonlinear_arith);
    assert((r + 1) * (2 * d) == 2 * (r * d) + 2 * d) by (nonlinear_arith);
    quotient(2 * m + d, 2 * d, r);
}
/// The saturated sum truncates to the nearest value or one below it.
pub proof fn saturated(m: int, d: int, max: int, r: int)
    requires 0 <= m <= max + 1, 1 <= d <= max + 1, m + d / 2 > max, max >= 1, r == max / d
    ensures r == near(m, d) || r + 1 == near(m, d), r >= 0
{
    let t = m + d / 2;
    let e = t / d;
    half_up(m, d, e);
    assert(r * d <= max < (r + 1) * d && r >= 0) by (nonlinear_arith) requires r == max / d, d >= 1, max >= 0;
    assert(e * d <= t < (e + 1) * d) by (nonlinear_arith) requires e == t / d, d >= 1, t >= 0;
    assert(t <= max + d);
    assert((r + 1) * d == r * d + d && (e + 1) * d == e * d + d && (r + 2) * d == r * d + 2 * d) by (nonlinear_arith);
    assert(e >= r) by (nonlinear_arith) requires r * d <= max, max < t, t < (e + 1) * d, d >= 1;
    assert(e <= r + 1) by (nonlinear_arith) requires e * d <= t, t <= max + d, max < (r + 1) * d, d >= 1;
}
/// Truncating division of a signed value by a positive one.
pub open spec fn tdiv(x: int, d: int) -> int { if x < 0 { -((-x) / d) } else { x / d } }
/// A divisor larger than the dividend, of either sign.
pub proof fn small(y: int, d: int) requires -d < y < d ensures tdiv(y, d) == 0, mag(y) / d == 0, mag(y) / (-d) == 0
{
    let m = mag(y);
    quotient(m, d, 0);
    assert(m / (-d) == 0) by (nonlinear_arith) requires 0 <= m < d;
}
/// What the signed code computes.
pub open spec fn signed_code(x: int, d: int, min: int, max: int) -> int {
    let h = if x > 0 { d / 2 } else if x < 0 { -(d / 2) } else { 0 };
    let s = if x + h > max { max } else if x + h < min { min } else { x + h };
    tdiv(if s < min + 1 { min + 1 } else { s }, d)
}
pub proof fn signed_rounds(x: int, d: int, max: int)
    requires -max - 1 <= x <= max, 1 <= d <= max + 1, max >= 1
    ensures rounded(x, d, signed_code(x, d, -max - 1, max), max)
{
    let m = mag(x);
    let h = if x > 0 { d / 2 } else if x < 0 { -(d / 2) } else { 0 };
    let r = signed_code(x, d, -max - 1, max);
    if x == 0 { vstd::arithmetic::div_mod::lemma_basic_div(0, d); half_up(0, d, (d / 2) / d); vstd::arithmetic::div_mod::lemma_basic_div(d / 2, d); }
    else if m + d / 2 <= max { half_up(m, d, (m + d / 2) / d); }
    else { saturated(m, d, max, max / d); }
}
pub proof fn unsigned_rounds(x: int, d: int, max: int)
    requires 0 <= x <= max, 1 <= d <= max + 1, max >= 1
    ensures rounded(x, d, (if x + d / 2 > max { max } else { x + d / 2 }) / d, max)
{
    if x + d / 2 <= max { half_up(x, d, (x + d / 2) / d); } else { saturated(x, d, max, max / d); }
}
pub proof fn product_i32(x: i32, y: i32)
    ensures -0x4000_0000_0000_0000 <= x * y <= 0x4000_0000_0000_0000
{
    let (a, b) = (mag(x as int), mag(y as int));
    assert(a * b <= 0x8000_0000 * 0x8000_0000) by (nonlinear_arith) requires 0 <= a <= 0x8000_0000, 0 <= b <= 0x8000_0000;
    assert(x * y == a * b || x * y == -(a * b)) by (nonlinear_arith) requires (a == x || a == -x), (b == y || b == -y);
    assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0;
}
pub proof fn product_u32(x: u32, y: u32)
    ensures 0 <= x * y <= u64::MAX
{ assert(0 <= x * y <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= x <= 0xffff_ffff, 0 <= y <= 0xffff_ffff; }
''' + bit_lemmas() + r'''
/// The run-time checks of the code, where they may fire (partial target): the
/// call returns only if the condition holds.
#[verifier::external_body]
pub fn vx_stop_unless(c: bool)
    ensures c
{ if !c { panic!() } }
pub trait VxExpect<T>: Sized { spec fn is(self, t: T) -> bool; fn vx_expect(self, msg: &str) -> (r: T) ensures self.is(r); }
impl<T> VxExpect<T> for Option<T> {
    open spec fn is(self, t: T) -> bool { self == Some(t) }
    #[verifier::external_body]
    fn vx_expect(self, msg: &str) -> (r: T) { self.expect(msg) }
}
'''

TRAIT_INSIDE = r'''
    spec fn val(&self) -> Self::Raw;
    spec fn bounds(raw: Self::Raw) -> bool;
    fn raw(&self) -> (r: Self::Raw)
        ensures r == self.val();
    fn new_unchecked(raw: Self::Raw) -> (r: Self)
        ensures r.val() == raw;
'''


def build(partial):
    def req(*cs):
        cs = [c for c in cs if c]
        return "requires " + ", ".join(cs) + "\n" if cs else ""

    def tot(c):
        return "" if partial else c

    def fits(x, s, wt, rt):
        """The exact result, or every admissible rounding of it, fits R."""
        return ("if %(s)s > 0 { forall|r: int| #[trigger] rounded((%(x)s) as int, pow(%(s)s), r, %(wt)s::MAX as int) ==> %(rt)s::MIN <= r <= %(rt)s::MAX && R::bounds(r as %(rt)s) } "
                "else { %(rt)s::MIN <= (%(x)s) * pow(-(%(s)s)) <= %(rt)s::MAX && R::bounds(((%(x)s) * pow(-(%(s)s))) as %(rt)s) }" % dict(s=s, x=x, wt=wt, rt=rt))

    fa, fr = "Self::FRACTIONAL_BITS", "R::FRACTIONAL_BITS"
    trait = {
        "new": dict(spec=req(tot("fractional_bits == Self::FRACTIONAL_BITS"), tot("Self::bounds(raw)"))
                    + "ensures res.val() == raw, Self::bounds(raw)"),
        "within_bounds": dict(spec="ensures res == Self::bounds(self.val())", no_default=True),
    }
    units = [
        dict(kind="text", text="pub const DO_CHECKS: bool = true;") if False else
        dict(kind="const", file="src/lib.rs", name="DO_CHECKS"),
        dict(kind="impl", file=FILE, name="fixed_point::FixedPoint", emit="pub trait FixedPoint: Sized",
             headers=["pub trait FixedPoint where Self: Sized"], inside=TRAIT_INSIDE
             + "    fn within_bounds(&self) -> (r: bool)\n        ensures r == Self::bounds(self.val());\n",
             skip=["from_f32", "as_f32", "from_f64", "as_f64", "within_bounds"],
             fns={"new": trait["new"]}),
    ]
    # the rounding functions
    for t, w in W.items():
        sg = t in SIGNED
        m = w - 1
        half = """proof {
    let k: u8 = (shift - 1) as u8;
    if shift as int != 0 {
        pow_step(k as int); pow_pos(k as int);
        one_%s(k);
        assert(pow(shift as int) / 2 == pow(k as int) && pow(shift as int) >= 2);
""" % t
        if sg:
            half += """
        let s = if raw > 0 { 1%(t)s } else if raw < 0 { -1%(t)s } else { 0%(t)s };
        sign_%(t)s(s, k);
        top_%(t)s();
        pow_le(shift as int, %(m)d);
        signed_rounds(raw as int, pow(shift as int), %(t)s::MAX as int);
        if shift < %(m)d { one_%(t)s(shift); } else {
            let h = if s == 0 { 0 } else if s == 1 { pow(k as int) } else { -pow(k as int) };
            let v = if raw + h > %(t)s::MAX { %(t)s::MAX as int } else if raw + h < %(t)s::MIN { %(t)s::MIN as int } else { raw + h };
            small(if v < %(t)s::MIN + 1 { %(t)s::MIN + 1 } else { v }, pow(%(m)d));
        }
""" % dict(t=t, m=m)
        else:
            half += """
        let v = if raw + pow(k as int) > %(t)s::MAX { %(t)s::MAX } else { (raw + pow(k as int)) as %(t)s };
        shr_%(t)s(v, shift);
        pow_le(shift as int, %(m)d); one_%(t)s(%(m)du8); assert((1%(t)s << %(m)du8) <= %(t)s::MAX);
        unsigned_rounds(raw as int, pow(shift as int), %(t)s::MAX as int);
""" % dict(t=t, m=m)
        half += "    }\n}\n"
        units.append(dict(kind="text", text="pub mod fix_%s { use super::*;\n" % t))
        units.append(dict(kind="fn", file=FILE, name="scaled_down", module="fix_" + t, spec=dict(
            spec=req("shift <= %d" % m, tot("shift >= 1"))
            + "ensures 1 <= shift, rounded(raw as int, pow(shift as int), res as int, %s::MAX as int)" % t,
            begin=half)))
        if w >= 32:
            lem = "signed_rounds" if sg else "unsigned_rounds"
            units.append(dict(kind="fn", file=FILE, name="div", module="fix_" + t, spec=dict(
                spec=req(tot("divisor > 0"))
                + "ensures divisor > 0, rounded(raw as int, divisor as int, res as int, %s::MAX as int)" % t,
                begin="proof { if divisor > 0 { %s(raw as int, divisor as int, %s::MAX as int); %s } }\n" % (
                    lem, t, "let h = divisor as int / 2; assert(h * 1 == h && h * -1 == -h && h * 0 == 0) by (nonlinear_arith);" if sg else ""))))
        if w == 32:
            p = "i" if sg else "u"
            for nm, wide in (("mul", False), ("mul_wide", True)):
                rt = "%s%d" % (p, 64 if wide else 32)
                x = "a.val() * b.val()"
                s = "A::FRACTIONAL_BITS + B::FRACTIONAL_BITS - R::FRACTIONAL_BITS"
                mv = "moved(%s, %s, r, %s64::MAX as int)" % (x, s, p)
                units.append(dict(kind="fn", file=FILE, name=nm, module="fix_" + t, spec=dict(
                    spec=req("A::FRACTIONAL_BITS <= 31", "B::FRACTIONAL_BITS <= 31", "R::FRACTIONAL_BITS <= %d" % (63 if wide else 31),
                             tot(fits(x, s, p + "64", rt)))
                    + "ensures " + mv.replace(", r,", ", res.val() as int,") + ", R::bounds(res.val())",
                    begin="""proof {
    product_%(t)s(a.val(), b.val());
    let p = (a.val() * b.val()) as %(p)s64;
    let s = %(s)s;
    if s <= 0 {
        shl_%(p)s64(p, (-s) as u8);
    }
}
""" % dict(t=t, p=p, s=s))))
        units.append(dict(kind="text", text="}\n"))
    # the traits
    for t in ("i32", "u32", "i64", "u64"):
        w, sg = W[t], t in SIGNED
        T = t.upper()
        p = t[0]
        fns = {"ulp": dict(spec="ensures res.val() == 1"),
               "trunc": dict(spec=req("Self::FRACTIONAL_BITS < %d" % w) + "ensures res == self.val() as int / pow(Self::FRACTIONAL_BITS as int)",
                             begin="proof { shr_%s(self.val(), Self::FRACTIONAL_BITS); }\n" % t)}
        for o, op in (("add", "+"), ("sub", "-")):
            e = "self.val() %s other.val()" % op
            fns[o] = dict(spec=req(tot("%s::MIN <= %s <= %s::MAX" % (t, e, t)), tot("Self::bounds((%s) as %s)" % (e, t)))
                          + "ensures res.val() == %s, Self::bounds(res.val())" % e)
        fns["div"] = dict(spec=req(tot("divisor > 0"), tot("forall|r: int| #[trigger] rounded(self.val() as int, divisor as int, r, %s::MAX as int) ==> Self::bounds(r as %s)" % (t, t)))
                          + "ensures divisor > 0, rounded(self.val() as int, divisor as int, res.val() as int, %s::MAX as int), Self::bounds(res.val())" % t)
        if sg:
            fns["neg"] = dict(spec=req(tot("self.val() > %s::MIN" % t), tot("Self::bounds((-self.val()) as %s)" % t))
                              + "ensures res.val() == -self.val(), Self::bounds(res.val())")
        for rt in (p + "32", p + "64"):
            R = rt.upper()
            wt = t if w == 64 else rt          # the type the move is made in
            mv = "moved(self.val() as int, Self::FRACTIONAL_BITS - R::FRACTIONAL_BITS, r, %s::MAX as int)" % wt
            fns["to_fix_" + rt] = dict(
                spec=req("Self::FRACTIONAL_BITS < %d" % w, "R::FRACTIONAL_BITS < %d" % W[rt],
                         tot(fits("self.val()", "Self::FRACTIONAL_BITS - R::FRACTIONAL_BITS", wt, rt)))
                + "ensures " + mv.replace(", r,", ", res.val() as int,") + ", R::bounds(res.val())",
                begin="""proof {
    let s = Self::FRACTIONAL_BITS - R::FRACTIONAL_BITS;
    if s <= 0 {
        shl_%s(self.val() as %s, (-s) as u8);
    }
}
""" % (wt, wt))
        skip = ["TOTAL_BITS", "INTEGRAL_BITS", "log2"]
        units.append(dict(kind="impl", file=FILE, name="fixed_point::Fix%s" % T, emit="pub trait Fix%s: FixedPoint<Raw = %s>" % (T, t),
                          headers=["pub trait Fix%s: FixedPoint<Raw=%s>" % (T, t)], skip=skip, fns=fns))
    # the formats
    units.append(dict(kind="text", text="pub struct Log2Lut;\n"))
    units.append(dict(kind="impl", file="src/lut/log2.rs", name="lut::log2::Log2Lut", emit="impl Log2Lut", headers=["impl Log2Lut"], only=["INDEX_BITS"], fns={}))
    fmts = [("NoFractI32", "i32", "true"), ("NoFractU32", "u32", "true"), ("NoFractI64", "i64", "true"), ("NoFractU64", "u64", "true"),
            ("FractOnlyI32", "i32", "raw >= 0"), ("FractOnlyU32", "u32", "raw <= 0x7fff_ffff"),
            ("FractOnlyI64", "i64", "raw >= 0"), ("FractOnlyU64", "u64", "raw <= 0x7fff_ffff_ffff_ffff"),
            ("Log2D", "i32", "true"), ("Log2Q", "i64", "true"),
            ("StretchedProbD", "i32", "-(12 * 0x20_0000) <= raw <= 12 * 0x20_0000"), ("StretchedProbQ", "i64", "true"), ("MixerWeight", "i32", "true")]
    for n, t, b in fmts:
        units.append(dict(kind="struct", file=TYPES, name=n))
        has = b != "true"
        fns = {"raw": {}, "new_unchecked": {}}
        if has:
            fns["within_bounds"] = dict(ret="r")
            if t == "u32":
                fns["within_bounds"]["begin"] = "proof { shr_u32(self.0, 31u8); assert(pow(31) == 0x8000_0000) by (compute); }\n"
            if t == "u64":
                fns["within_bounds"]["begin"] = "proof { shr_u64(self.0, 63u8); assert(pow(63) == 0x8000_0000_0000_0000) by (compute); }\n"
            if n == "StretchedProbD":
                fns["within_bounds"]["begin"] = "proof { assert((12i32 << 21u8) == 12 * 0x20_0000 && ((-12i32) << 21u8) == -(12 * 0x20_0000)) by (bit_vector); }\n"
        units.append(dict(kind="impl", file=TYPES, name="fixed_point::types::" + n, emit="impl FixedPoint for " + n,
                          headers=["impl FixedPoint for " + n], fns=fns,
                          inside="    open spec fn val(&self) -> %s { self.0 }\n    open spec fn bounds(raw: %s) -> bool { %s }\n" % (t, t, b)
                          + ("" if has else "    fn within_bounds(&self) -> bool { true }\n")))
        if n == "StretchedProbD":
            units.append(dict(kind="impl", file=TYPES, name="fixed_point::types::" + n, emit="impl " + n, headers=["impl " + n], only=["ABSOLUTE_LIMIT"], fns={}))
    return units


TARGET = dict(prelude=PRELUDE, units=build(False), rewrites=[
    (r"type Raw: FloatConversions \+ Copy \+ Debug;", "type Raw: Copy;", "the bound on Raw keeps only Copy (floats and Debug are not used by the extracted functions)"),
    (r"\b([ABR]): Fix([IU])(32|64)\b", lambda m: "%s: FixedPoint<Raw = %s%s>" % (m.group(1), m.group(2).lower(), m.group(3)), "bounds FixI32/FixU32/FixI64/FixU64 are written FixedPoint<Raw = ..>, which implies them (blanket impls)"),
])
PARTIAL = dict(TARGET, units=build(True), partial=True, rewrites=TARGET["rewrites"] + [
    (r"\.expect\(", ".vx_expect(", "Option::expect as a call that returns only on Some"),
])
