"""C01/C02: the entropy coder (src/coding/{encoder,decoder,mod}.rs)."""

PRELUDE = r'''
use vstd::prelude::*;
verus! {

// ---- trusted contracts of the outside world -------------------------------
#[verifier::external_derive]
#[derive(Debug)]
pub struct IoError;

/// `std::io::Write`: `write_all` appends the bytes (or fails, which the coder
/// turns into a panic).
pub struct Sink { pub bytes: Ghost<Seq<u8>> }
impl Sink {
    #[verifier::external_body]
    pub fn write_all(&mut self, data: &[u8]) -> (r: Result<(), IoError>)
        ensures r is Ok, final(self).bytes@ == old(self).bytes@ + data@,
            data@.len() == 1 ==> final(self).bytes@ == old(self).bytes@.push(data@[0])
    { Ok(()) }
}

/// `std::io::Read`: `read_exact` yields the next bytes; there must be enough
/// of them (the coder panics otherwise).
pub struct Source { pub data: Ghost<Seq<u8>>, pub pos: Ghost<nat> }
impl Source {
    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut [u8; 1]) -> (r: Result<(), IoError>)
        requires old(self).pos@ < old(self).data@.len()
        ensures r is Ok, final(self).data@ == old(self).data@,
            final(self).pos@ == old(self).pos@ + 1,
            final(buf)@.len() == 1, final(buf)@[0] == old(self).data@[old(self).pos@ as int]
    { Ok(()) }
}

impl vstd::std_specs::convert::FromSpecImpl<bool> for Bit {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: bool) -> Bit { if v { Bit::One } else { Bit::Zero } }
}

// ---- vocabulary of the contracts ------------------------------------------
pub open spec fn p256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }

/// A byte string as a number, most significant byte first.
pub open spec fn val(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { val(s.drop_last()) * 256 + s.last() as int }
}

/// Renormalisation: low end, range and number of digits, shifted by whole
/// digits until the range has at least 23 bits.
pub open spec fn norm(n: int, r: int, k: int) -> (int, int, int)
    decreases (if 0 < r < 0x80_0000 { 0x80_0000 - r } else { 0 })
{
    if 0 < r < 0x80_0000 { norm(n * 256, r * 256, k + 1) } else { (n, r, k) }
}

/// The split point of a range for a probability.
pub open spec fn part(r: int, p: int) -> int { (r * p) / 0x80_0000 }

/// A coded event.
#[derive(Clone, Copy)]
pub enum Event { Bit { p: FinalProbability, bit: Bit }, Rare { happens: bool } }

pub open spec fn event_wf(e: Event) -> bool {
    match e { Event::Bit { p, bit } => p.wf(), Event::Rare { happens } => true }
}

/// The interval of an event inside a normalised interval.
pub open spec fn cut(n: int, r: int, e: Event) -> (int, int) {
    match e {
        Event::Bit { p, bit } =>
            if bit is One { (n + part(r, p.0 as int), r - part(r, p.0 as int)) } else { (n, part(r, p.0 as int)) },
        Event::Rare { happens } => if happens { (n + r - 1, 1) } else { (n, r - 1) },
    }
}

/// What coding one event does to (low end, range, digits).
pub open spec fn step(s: (int, int, int), e: Event) -> (int, int, int) {
    let m = norm(s.0, s.1, s.2);
    let c = cut(m.0, m.1, e);
    (c.0, c.1, m.2)
}

impl FinalProbability {
    pub open spec fn wf(&self) -> bool { 1 <= self.0 < 0x80_0000 }
}

impl Encoder {
    /// The digits so far, pending ones and carry included, as a number.
    pub open spec fn dig(&self) -> int {
        if self.delay {
            (val(self.writer.bytes@) * 256 + self.last_output_byte as int) * p256(self.run_length_0xff as nat)
                + p256(self.run_length_0xff as nat) - 1 + (if self.carry { 1int } else { 0 })
        } else { val(self.writer.bytes@) }
    }
    pub open spec fn k(&self) -> int {
        self.writer.bytes@.len() + (if self.delay { 1int } else { 0 }) + self.run_length_0xff
    }
    /// The low end of the interval, exactly.
    pub open spec fn n(&self) -> int { self.dig() * 0x8000_0000 + self.rc_buffer }
    pub open spec fn st(&self) -> (int, int, int) { (self.n(), self.rc_range as int, self.k()) }
    /// Digits can still absorb a carry.
    pub open spec fn digits_wf(&self) -> bool {
        &&& self.run_length_0xff >= 0
        &&& (!self.delay ==> self.run_length_0xff == 0 && self.carry && self.writer.bytes@.len() == 0)
        &&& (self.delay && self.carry ==> self.last_output_byte < 255)
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.digits_wf()
        &&& 0 <= self.rc_buffer
        &&& 1 <= self.rc_range
        // no second carry before the next digit, none out of the first digit
        &&& (self.carry || self.last_output_byte == 255 ==> self.rc_buffer + self.rc_range <= 0x8000_0000)
    }
    /// Fewer than 2^31 - 256 digits 0xff in a row are pending.
    pub open spec fn run_fits(&self) -> bool { self.run_length_0xff < 0x7fff_ff00 }
}

impl Decoder {
    /// The number formed by the bytes consumed so far.
    pub open spec fn t(&self) -> int { val(self.reader.data@.take(self.reader.pos@ as int)) }
    /// The low end of the interval, as the decoder sees it.
    pub open spec fn n(&self) -> int { self.t() / 2 - self.rc_buffer }
    pub open spec fn st(&self) -> (int, int, int) { (self.n(), self.rc_range as int, self.reader.pos@ as int) }
    pub open spec fn wf(&self) -> bool {
        &&& self.reader.pos@ <= self.reader.data@.len()
        &&& self.next_high_bit == self.t() % 2
        &&& 0 <= self.rc_buffer < self.rc_range
    }
}

// ---- arithmetic -----------------------------------------------------------
proof fn bits()
    ensures
        forall|x: i32| 0 <= x ==> #[trigger] (x >> 23) == x / 0x80_0000,
        forall|x: i32| 0 <= x < 0x80_0000 ==> #[trigger] (x << 8) == x * 256,
        forall|x: i32| 0 <= x ==> #[trigger] ((x << 8) & 0x7fff_ffff) == (x % 0x80_0000) * 256,
        forall|x: i32| x < 0 ==> #[trigger] (x & 0x7fff_ffff) == x + 0x8000_0000,
        forall|x: i64| 0 <= x < 0x40_0000_0000_0000 ==> #[trigger] (x >> 23u8) == x / 0x80_0000,
        forall|x: i32| 0 <= x <= 255 ==> #[trigger] (x >> 1) == x / 2,
        forall|x: i32| 0 <= x <= 255 ==> #[trigger] (x & 1) == x % 2,
        forall|x: i32| 0 <= x <= 1 ==> #[trigger] (x << 7) == x * 128,
        forall|x: i32| 0 <= x ==> #[trigger] (x & 0x7f_ffff) == x % 0x80_0000,
        forall|x: i32| 0 <= x ==> #[trigger] (x & 0x7fff_ffff) == x,
        forall|a: i32, b: i32| 0 <= b < 128 && 0 <= a <= 0xffff && a & 127 == 0 ==> #[trigger] (a | b) == a + b,
        forall|a: i32, b: i32| 0 <= b < 128 && 0 <= a <= 0xffff && a & 127 == 0 ==> #[trigger] (b | a) == a + b,
        forall|x: i32| 0 <= x <= 1 ==> #[trigger] ((x << 7) & 127) == 0,
{
    assert(forall|x: i32| 0 <= x ==> #[trigger] (x >> 23) == x / 0x80_0000) by (bit_vector);
    assert(forall|x: i32| 0 <= x < 0x80_0000 ==> #[trigger] (x << 8) == x * 256) by (bit_vector);
    assert(forall|x: i32| 0 <= x ==> #[trigger] ((x << 8) & 0x7fff_ffff) == (x % 0x80_0000) * 256) by (bit_vector);
    assert(forall|x: i32| x < 0 ==> #[trigger] (x & 0x7fff_ffff) == x + 0x8000_0000i64) by (bit_vector);
    assert(forall|x: i64| 0 <= x < 0x40_0000_0000_0000 ==> #[trigger] (x >> 23u8) == x / 0x80_0000) by (bit_vector);
    assert(forall|x: i32| 0 <= x <= 255 ==> #[trigger] (x >> 1) == x / 2) by (bit_vector);
    assert(forall|x: i32| 0 <= x <= 255 ==> #[trigger] (x & 1) == x % 2) by (bit_vector);
    assert(forall|x: i32| 0 <= x <= 1 ==> #[trigger] (x << 7) == x * 128) by (bit_vector);
    assert(forall|x: i32| 0 <= x ==> #[trigger] (x & 0x7f_ffff) == x % 0x80_0000) by (bit_vector);
    assert(forall|x: i32| 0 <= x ==> #[trigger] (x & 0x7fff_ffff) == x) by (bit_vector);
    assert(forall|a: i32, b: i32| 0 <= b < 128 && 0 <= a <= 0xffff && a & 127 == 0 ==> #[trigger] (a | b) == a + b) by (bit_vector);
    assert(forall|a: i32, b: i32| 0 <= b < 128 && 0 <= a <= 0xffff && a & 127 == 0 ==> #[trigger] (b | a) == a + b) by (bit_vector);
    assert(forall|x: i32| 0 <= x <= 1 ==> #[trigger] ((x << 7) & 127) == 0) by (bit_vector);
}

proof fn part_bounds()
    ensures
        forall|r: int, p: int| 0x80_0000 <= r < 0x8000_0000 && 1 <= p < 0x80_0000 ==>
            0 <= #[trigger] (r * p) < 0x40_0000_0000_0000 && 1 <= (r * p) / 0x80_0000 < r,
{
    assert forall|r: int, p: int| 0x80_0000 <= r < 0x8000_0000 && 1 <= p < 0x80_0000 implies
        0 <= #[trigger] (r * p) < 0x40_0000_0000_0000 && 1 <= (r * p) / 0x80_0000 < r by {
        assert(r * p >= r) by (nonlinear_arith) requires r >= 0, p >= 1;
        assert(r * p <= r * 0x7f_ffff) by (nonlinear_arith) requires r >= 0, p <= 0x7f_ffff;
    }
}

proof fn norm_range(n: int, r: int, k: int)
    requires 1 <= r < 0x8000_0000
    ensures 0x80_0000 <= norm(n, r, k).1 < 0x8000_0000, k <= norm(n, r, k).2 <= k + 3
    decreases (if 0 < r < 0x80_0000 { 0x80_0000 - r } else { 0 })
{
    reveal_with_fuel(norm, 5);
}

proof fn val_push(s: Seq<u8>, x: u8)
    ensures val(s.push(x)) == val(s) * 256 + x as int
{
    assert(s.push(x).drop_last() =~= s);
}

proof fn pushes()
    ensures forall|s: Seq<u8>, x: u8| #[trigger] val(s.push(x)) == val(s) * 256 + x as int
{
    assert forall|s: Seq<u8>, x: u8| #[trigger] val(s.push(x)) == val(s) * 256 + x as int by { val_push(s, x); }
}

proof fn p256_pos(n: nat) ensures p256(n) >= 1 decreases n { if n > 0 { p256_pos((n - 1) as nat) } }

proof fn p256_add(a: nat, b: nat) ensures p256(a + b) == p256(a) * p256(b) decreases a {
    if a > 0 {
        p256_add((a - 1) as nat, b);
        assert(p256(a + b) == 256 * p256((a - 1 + b) as nat));
        assert(256 * (p256((a - 1) as nat) * p256(b)) == (256 * p256((a - 1) as nat)) * p256(b)) by (nonlinear_arith);
    } else {
        assert(1 * p256(b) == p256(b));
    }
}
'''

ENC = {
    "new": dict(
        spec="requires writer.bytes@.len() == 0\n"
             "ensures res.wf(), res.run_fits(), res.st() == (0int, 0x7fff_ffffint, 0int), "
             "res.writer.bytes@ == writer.bytes@",
        begin="proof { reveal_with_fuel(val, 2); }\n"),
    "encode_bit": dict(
        spec="requires old(self).wf(), old(self).run_fits(), probability.wf()\n"
             "ensures final(self).wf(), final(self).st() == step(old(self).st(), Event::Bit { p: probability, bit: value })",
        begin="proof { bits(); part_bounds(); norm_range(self.n(), self.rc_range as int, self.k()); }\n"),
    "encode_rare_event": dict(
        spec="requires old(self).wf(), old(self).run_fits()\n"
             "ensures final(self).wf(), final(self).st() == step(old(self).st(), Event::Rare { happens: is_rare_event })",
        begin="proof { bits(); norm_range(self.n(), self.rc_range as int, self.k()); }\n"),
    "normalize": dict(
        spec="requires old(self).wf(), old(self).run_fits()\n"
             "ensures final(self).wf(), final(self).rc_range >= 0x80_0000, "
             "final(self).st() == norm(old(self).n(), old(self).rc_range as int, old(self).k())",
        begin="proof { bits(); }\nlet ghost vx_k0 = self.k(); let ghost vx_run0 = self.run_length_0xff;\n",
        loops=[dict(
            inv="invariant self.wf(), vx_run0 < 0x7fff_ff00,\n"
                "  norm(self.n(), self.rc_range as int, self.k()) == norm(old(self).n(), old(self).rc_range as int, old(self).k()),\n"
                "  vx_k0 <= self.k(), self.run_length_0xff <= vx_run0 + (self.k() - vx_k0),\n"
                "  self.k() - vx_k0 >= 1 ==> self.rc_range >= 256,\n"
                "  self.k() - vx_k0 >= 2 ==> self.rc_range >= 65536,\n"
                "  self.k() - vx_k0 >= 3 ==> self.rc_range >= 0x80_0000,\n"
                "decreases 0x8000_0000 - self.rc_range",
            begin="proof { bits(); }\nlet ghost vx_s = *self;\n",
            end="proof { assert(self.k() == vx_s.k() + 1); assert(self.dig() == vx_s.dig() * 256 + vx_s.rc_buffer / 0x80_0000);\n"
                "  assert(self.n() == vx_s.n() * 256); assert(self.rc_range == vx_s.rc_range * 256); }\n")]),
    "output_byte": dict(
        spec="requires old(self).digits_wf(), 0 <= octet <= 255, old(self).run_length_0xff < 0x7fff_ffff\n"
             "ensures final(self).digits_wf(), final(self).delay, !final(self).carry,\n"
             "  final(self).dig() == old(self).dig() * 256 + octet, final(self).k() == old(self).k() + 1,\n"
             "  final(self).last_output_byte == 255 ==> octet == 255 && (old(self).carry || old(self).last_output_byte == 255), octet == 0 ==> final(self).run_length_0xff == 0,\n"
             "  octet == 0 ==> final(self).last_output_byte == 0,\n"
             "  final(self).run_length_0xff <= old(self).run_length_0xff + 1,\n"
             "  final(self).rc_buffer == old(self).rc_buffer, final(self).rc_range == old(self).rc_range",
        begin="proof { let x = val(self.writer.bytes@) * 256 + self.last_output_byte as int; let q = p256(self.run_length_0xff as nat); assert((x + 1) * q == x * q + q) by (nonlinear_arith);\n"
              "  p256_pos(self.run_length_0xff as nat); reveal_with_fuel(val, 2); reveal_with_fuel(p256, 2);\n"
              "  if !self.delay { assert(self.writer.bytes@ =~= Seq::empty()); } "
              "pushes();\n"
              "  assert(self.delay ==> self.dig() == x * q + q - 1 + (if self.carry { 1int } else { 0 }));\n"
              "  let w = self.writer.bytes@; let l = self.last_output_byte as int;\n"
              "  if !self.delay { assert(val(w) == 0); assert(q == 1); assert(val(w) * q == 0) by (nonlinear_arith) requires val(w) == 0; }\n"
              "  assert forall|b: u8| b == l implies (#[trigger] val(w.push(b))) * q == x * q by { assert(val(w.push(b)) == x); }\n"
              "  assert forall|b: u8| b == l + 1 implies (#[trigger] val(w.push(b))) * q == x * q + q by { assert(val(w.push(b)) == x + 1); }\n"
              "}\n",
        loops=[dict(
            inv="invariant self.run_length_0xff >= 0,\n"
                "  val(self.writer.bytes@) * p256(self.run_length_0xff as nat) + (if self.carry { 0int } else { p256(self.run_length_0xff as nat) - 1 }) == old(self).dig(),\n"
                "  self.writer.bytes@.len() + self.run_length_0xff == old(self).k(),\n"
                "  forall|s: Seq<u8>, x: u8| #[trigger] val(s.push(x)) == val(s) * 256 + x as int,\n"
                "  self.carry == old(self).carry, self.rc_buffer == old(self).rc_buffer, self.rc_range == old(self).rc_range,\n"
                "decreases self.run_length_0xff",
            begin="let ghost vx_w = self.writer.bytes@; let ghost vx_r = (self.run_length_0xff - 1) as nat;\n"
                  "proof { assert(p256(self.run_length_0xff as nat) == 256 * p256(vx_r)); }\n",
            end="proof { let b: int = if self.carry { 0 } else { 255 }; assert(val(self.writer.bytes@) == val(vx_w) * 256 + b);\n"
                "  assert((val(vx_w) * 256 + b) * p256(vx_r) == val(vx_w) * (256 * p256(vx_r)) + b * p256(vx_r)) by (nonlinear_arith);\n"
                "}\n")],
        insert=[(r"self\.run_length_0xff \+= 1;",
                 "\nproof { let x = val(self.writer.bytes@) * 256 + self.last_output_byte as int; let q = p256(old(self).run_length_0xff as nat);\n"
                 "  assert(p256(self.run_length_0xff as nat) == 256 * q); assert(x * (256 * q) + 256 * q - 1 == (x * q + q - 1) * 256 + 255) by (nonlinear_arith); }\n")]),
    "add_with_carry": dict(
        spec="requires old(self).digits_wf(), old(self).rc_buffer >= 0, cumulative_exclusive_fraction >= 0,\n"
             "  old(self).rc_buffer + cumulative_exclusive_fraction >= 0x8000_0000 ==> old(self).delay && !old(self).carry && old(self).last_output_byte < 255\n"
             "ensures final(self).digits_wf(), final(self).rc_buffer >= 0,\n"
             "  final(self).n() == old(self).n() + cumulative_exclusive_fraction, final(self).k() == old(self).k(),\n"
             "  final(self).rc_range == old(self).rc_range, final(self).last_output_byte == old(self).last_output_byte,\n"
             "  final(self).delay == old(self).delay,\n"
             "  old(self).rc_buffer + cumulative_exclusive_fraction < 0x8000_0000 ==> final(self).carry == old(self).carry\n"
             "     && final(self).rc_buffer == old(self).rc_buffer + cumulative_exclusive_fraction,\n"
             "  old(self).rc_buffer + cumulative_exclusive_fraction >= 0x8000_0000 ==> final(self).carry\n"
             "     && final(self).rc_buffer == old(self).rc_buffer + cumulative_exclusive_fraction - 0x8000_0000",
        begin="proof { bits(); }\n"),
    "drop": dict(
        spec="requires old(self).wf(), old(self).run_fits()\n"
             "ensures val(final(self).writer.bytes@) == 2 * old(self).n(), final(self).writer.bytes@.len() == old(self).k() + 4",
        begin="let ghost vx_l = self.rc_buffer; let ghost vx_d = self.dig(); let ghost vx_k = self.k(); let ghost vx_r = self.run_length_0xff;\n"
              "proof { flush(vx_l); }\n",
        loops=[dict(index="vx_i",
            inv="invariant self.digits_wf(), vx_r < 0x7fff_ff00, self.run_length_0xff <= vx_r + vx_i, self.k() == vx_k + vx_i, flushed(vx_l),\n"
                "  self.rc_buffer == shl8(vx_l, vx_i as int), vx_i >= 1 ==> self.delay && !self.carry,\n"
                "  vx_i == 0 ==> self.dig() == vx_d,\n"
                "  vx_i == 1 ==> self.dig() == vx_d * 256 + oct(vx_l, 0),\n"
                "  vx_i == 2 ==> self.dig() == vx_d * 0x1_0000 + oct(vx_l, 0) * 256 + oct(vx_l, 1),\n"
                "  vx_i == 3 ==> self.dig() == vx_d * 0x100_0000 + oct(vx_l, 0) * 0x1_0000 + oct(vx_l, 1) * 256 + oct(vx_l, 2),\n"
                "  vx_i == 4 ==> self.dig() == vx_d * 0x1_0000_0000 + vx_l * 2,\n"
                "  vx_i == 5 ==> self.dig() == (vx_d * 0x1_0000_0000 + vx_l * 2) * 256 && self.run_length_0xff == 0 && self.last_output_byte == 0,\n",
            begin="proof { assert(self.rc_buffer == shl8(vx_l, vx_i as int)); assert(0 <= vx_i < 5); reveal_with_fuel(shl8, 7);\n"
                  "  assert(forall|x: i32| 0 <= #[trigger] ((x >> 23) & 0xff) <= 255) by (bit_vector); }\n")],
        end="proof { assert(self.dig() == val(self.writer.bytes@) * 256 * p256(0) + p256(0) - 1); }\n"),
}

FLUSH = r'''
pub open spec fn shl8(x: i32, n: int) -> i32 decreases n { if n <= 0 { x } else { shl8(x, n - 1) << 8 } }
pub open spec fn oct(x: i32, n: int) -> int { ((shl8(x, n) >> 23) & 0xff) as int }
pub open spec fn flushed(x: i32) -> bool {
    &&& oct(x, 0) * 0x100_0000 + oct(x, 1) * 0x1_0000 + oct(x, 2) * 256 + oct(x, 3) == 2 * x
    &&& oct(x, 4) == 0
}
proof fn flush(x: i32)
    requires x >= 0
    ensures flushed(x)
{
    reveal_with_fuel(shl8, 7);
    assert(x >= 0 ==> (((x) >> 23) & 0xff) * 0x100_0000 + (((x << 8) >> 23) & 0xff) * 0x1_0000
        + (((x << 8 << 8) >> 23) & 0xff) * 256 + (((x << 8 << 8 << 8) >> 23) & 0xff) == 2 * x) by (bit_vector);
    assert(((x << 8 << 8 << 8 << 8) >> 23) & 0xff == 0) by (bit_vector);
}
'''

DEC = {
    "new": dict(
        spec="requires reader.pos@ == 0, reader.data@.len() >= 4, val(reader.data@.take(4)) / 2 < 0x7fff_ffff\n"
             "ensures res.wf(), res.st() == (0int, 0x7fff_ffffint, 4int), res.reader.data@ == reader.data@",
        begin="let ghost vx_data = reader.data@; proof { bits(); reveal_with_fuel(val, 2); reveal_with_fuel(p256, 6); }\n",
        loops=[dict(index="vx_i",
            inv="invariant decoder.reader.data@ == vx_data, vx_data.len() >= 4, decoder.reader.pos@ == vx_i,\n"
                "  decoder.rc_range == 0x7fff_ffff, decoder.rc_buffer == decoder.t() / 2, decoder.next_high_bit == decoder.t() % 2,\n"
                "  0 <= decoder.t() < p256(vx_i as nat)",
            begin="proof { bits(); assert(p256((vx_i + 1) as nat) == 256 * p256(vx_i as nat)); reveal_with_fuel(p256, 6); }\n")]),
    "input_byte": dict(
        spec="requires old(self).reader.pos@ < old(self).reader.data@.len(), old(self).next_high_bit == old(self).t() % 2\n"
             "ensures final(self).reader.data@ == old(self).reader.data@, final(self).reader.pos@ == old(self).reader.pos@ + 1,\n"
             "  final(self).t() == old(self).t() * 256 + old(self).reader.data@[old(self).reader.pos@ as int],\n"
             "  0 <= res <= 255, final(self).t() / 2 == (old(self).t() / 2) * 256 + res, final(self).next_high_bit == final(self).t() % 2,\n"
             "  final(self).rc_buffer == old(self).rc_buffer, final(self).rc_range == old(self).rc_range",
        begin="proof { bits(); let d = self.reader.data@; let k = self.reader.pos@ as int; assert(d.take(k + 1) =~= d.take(k).push(d[k])); val_push(d.take(k), d[k]);\n"
              "  assert(forall|t: int, b: int| 0 <= b <= 255 ==> #[trigger] ((t * 256 + b) / 2) == (t / 2) * 256 + (t % 2) * 128 + b / 2 && (t * 256 + b) % 2 == b % 2);\n"
              "}\n"),
    "normalize": dict(
        spec="requires old(self).wf(), norm(old(self).n(), old(self).rc_range as int, old(self).reader.pos@ as int).2 <= old(self).reader.data@.len()\n"
             "ensures final(self).wf(), final(self).rc_range >= 0x80_0000, final(self).reader.data@ == old(self).reader.data@,\n"
             "  final(self).st() == norm(old(self).n(), old(self).rc_range as int, old(self).reader.pos@ as int)",
        loops=[dict(
            inv="invariant self.wf(), self.reader.data@ == old(self).reader.data@,\n"
                "  norm(self.n(), self.rc_range as int, self.reader.pos@ as int) == norm(old(self).n(), old(self).rc_range as int, old(self).reader.pos@ as int),\n"
                "  norm(old(self).n(), old(self).rc_range as int, old(self).reader.pos@ as int).2 <= self.reader.data@.len(),\n"
                "decreases 0x8000_0000 - self.rc_range",
            begin="proof { bits(); norm_range(self.n() * 256, self.rc_range as int * 256, self.reader.pos@ as int + 1); }\nlet ghost vx_s = *self;\n",
            end="proof { assert(self.n() == vx_s.n() * 256); }\n")]),
    "decode_bit": dict(
        spec="requires old(self).wf(), probability.wf(),\n"
             "  norm(old(self).n(), old(self).rc_range as int, old(self).reader.pos@ as int).2 <= old(self).reader.data@.len()\n"
             "ensures final(self).wf(), final(self).reader.data@ == old(self).reader.data@,\n"
             "  final(self).st() == step(old(self).st(), Event::Bit { p: probability, bit: res }),\n",
        begin="proof { bits(); part_bounds(); norm_range(self.n(), self.rc_range as int, self.reader.pos@ as int); }\n"),
    "decode_rare_event": dict(
        spec="requires old(self).wf(),\n"
             "  norm(old(self).n(), old(self).rc_range as int, old(self).reader.pos@ as int).2 <= old(self).reader.data@.len()\n"
             "ensures final(self).wf(), final(self).reader.data@ == old(self).reader.data@,\n"
             "  final(self).st() == step(old(self).st(), Event::Rare { happens: res })",
        begin="proof { bits(); norm_range(self.n(), self.rc_range as int, self.reader.pos@ as int); }\n"),
}

POST = r'''
// ---- the theorem -----------------------------------------------------------
/// State of the interval after the first `i` events.
pub open spec fn after(evs: Seq<Event>, i: int) -> (int, int, int) decreases i {
    if i <= 0 { (0, 0x7fff_ffff, 0) } else { step(after(evs, i - 1), evs[i - 1]) }
}

pub open spec fn all_wf(evs: Seq<Event>) -> bool { forall|i: int| 0 <= i < evs.len() ==> event_wf(#[trigger] evs[i]) }

proof fn norm_is_scaling(n: int, r: int, k: int) -> (s: nat)
    requires 1 <= r < 0x8000_0000
    ensures norm(n, r, k) == (n * p256(s), r * p256(s), k + s), s <= 3
    decreases (if 0 < r < 0x80_0000 { 0x80_0000 - r } else { 0 })
{
    reveal_with_fuel(p256, 5);
    reveal_with_fuel(norm, 5);
    let x: nat = if r >= 0x80_0000 { 0 } else if r * 256 >= 0x80_0000 { 1 } else if r * 65536 >= 0x80_0000 { 2 } else { 3 };
    assert(p256(0) == 1 && p256(1) == 256 && p256(2) == 65536 && p256(3) == 0x100_0000);
    assert(n * 256 * 256 == n * 65536 && n * 256 * 256 * 256 == n * 0x100_0000);
    x
}

/// What a valid state is, and that events keep it.
proof fn range_ok(evs: Seq<Event>, i: int)
    requires all_wf(evs), 0 <= i <= evs.len()
    ensures 1 <= after(evs, i).1 < 0x8000_0000, after(evs, i).0 >= 0, after(evs, i).2 >= 0
    decreases i
{
    if i > 0 {
        range_ok(evs, i - 1);
        let s = after(evs, i - 1);
        norm_range(s.0, s.1, s.2);
        part_bounds();
        let k = norm_is_scaling(s.0, s.1, s.2);
        p256_pos(k);
        assert(s.0 * p256(k) >= 0) by (nonlinear_arith) requires s.0 >= 0, p256(k) >= 1;
        assert(event_wf(evs[i - 1]));
    }
}

/// Later intervals lie inside earlier ones.
proof fn nested(evs: Seq<Event>, i: int, j: int)
    requires all_wf(evs), 0 <= i <= j <= evs.len()
    ensures after(evs, i).2 <= after(evs, j).2,
        ({ let q = p256((after(evs, j).2 - after(evs, i).2) as nat);
           after(evs, i).0 * q <= after(evs, j).0
           && after(evs, j).0 + after(evs, j).1 <= (after(evs, i).0 + after(evs, i).1) * q })
    decreases j - i
{
    if i == j {
        assert(p256(0) == 1);
    } else {
        nested(evs, i, j - 1);
        range_ok(evs, j - 1);
        range_ok(evs, j);
        let (a, b, c) = (after(evs, i), after(evs, j - 1), after(evs, j));
        let s = norm_is_scaling(b.0, b.1, b.2);
        norm_range(b.0, b.1, b.2);
        part_bounds();
        assert(event_wf(evs[j - 1]));
        let d = (b.2 - a.2) as nat;
        p256_add(d, s);
        p256_pos(s);
        assert(c.2 - a.2 == d + s);
        let (p, q) = (p256(d), p256(s));
        assert(c.0 >= b.0 * q && c.0 + c.1 <= b.0 * q + b.1 * q);
        assert(a.0 * (p * q) <= b.0 * q) by (nonlinear_arith) requires a.0 * p <= b.0, q >= 1;
        assert((b.0 + b.1) * q <= (a.0 + a.1) * (p * q)) by (nonlinear_arith) requires b.0 + b.1 <= (a.0 + a.1) * p, q >= 1;
        assert((b.0 + b.1) * q == b.0 * q + b.1 * q) by (nonlinear_arith);
    }
}

/// The first bytes of a number are its quotient.
proof fn prefix(s: Seq<u8>, m: nat)
    requires m <= s.len()
    ensures val(s.take(m as int)) == val(s) / p256((s.len() - m) as nat)
    decreases s.len() - m
{
    let d = (s.len() - m) as nat;
    if d == 0 {
        assert(s.take(m as int) =~= s);
        assert(p256(0) == 1);
    } else {
        prefix(s, m + 1);
        let q = p256((d - 1) as nat);
        p256_pos((d - 1) as nat);
        assert(s.take(m as int + 1) =~= s.take(m as int).push(s[m as int]));
        val_push(s.take(m as int), s[m as int]);
        assert(val(s.take(m as int)) == val(s.take(m as int + 1)) / 256);
        val_nonneg(s);
        vstd::arithmetic::div_mod::lemma_div_denominator(val(s), q, 256);
        assert(p256(d) == q * 256);
    }
}

proof fn val_nonneg(s: Seq<u8>) ensures val(s) >= 0 decreases s.len() { if s.len() > 0 { val_nonneg(s.drop_last()); } }

proof fn val_bound(s: Seq<u8>) ensures 0 <= val(s) < p256(s.len()) decreases s.len() {
    if s.len() > 0 { val_bound(s.drop_last()); }
}

/// What the decoder sees after `i` events when `m` more digits are consumed.
proof fn seen(s: Seq<u8>, n: int, kf: int, k: int)
    requires s.len() == kf + 4, val(s) == 2 * n, 0 <= k <= kf, n >= 0
    ensures val(s.take(k + 4)) / 2 == n / p256((kf - k) as nat)
{
    let q = p256((kf - k) as nat);
    p256_pos((kf - k) as nat);
    prefix(s, (k + 4) as nat);
    assert(val(s.take(k + 4)) == (2 * n) / q);
    assert(((2 * n) / q) / 2 == n / q) by {
        vstd::arithmetic::div_mod::lemma_div_denominator(2 * n, q, 2);
        vstd::arithmetic::div_mod::lemma_div_denominator(2 * n, 2, q);
        assert(q * 2 == 2 * q);
        assert((2 * n) / 2 == n);
    }
}

/// If `n` lies in the interval scaled by `q`, its quotient lies in it.
proof fn quotient(n: int, a: int, b: int, q: int)
    requires q >= 1, a * q <= n, n < b * q
    ensures a <= n / q < b
{
    let x = n / q;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, q);
    vstd::arithmetic::div_mod::lemma_mod_bound(n, q);
    assert(n == q * x + n % q);
    assert(x >= a) by (nonlinear_arith) requires n == q * x + n % q, 0 <= n % q < q, a * q <= n, q >= 1;
    assert(x < b) by (nonlinear_arith) requires n == q * x + n % q, 0 <= n % q, n < b * q, q >= 1;
}

/// Encoding any events and decoding the bytes gives the events back and
/// consumes all the bytes.  (The one way out: 2^31 - 256 or more digits 0xff
/// in a row, i.e. two gigabytes of output without a carry being resolved.)
pub fn round_trip(events: &Vec<Event>) -> (out: Option<(Vec<Event>, Decoder)>)
    requires all_wf(events@)
    ensures out matches Some(r) ==> r.0@ == events@ && r.1.reader.pos@ == r.1.reader.data@.len()
{
    let ghost evs = events@;
    let sink = Sink { bytes: Ghost(Seq::empty()) };
    let mut e = Encoder::new(sink);
    let mut i: usize = 0;
    while i < events.len()
        invariant evs == events@, all_wf(evs), i <= events.len(), e.wf(), e.run_fits(), e.st() == after(evs, i as int)
        decreases events.len() - i
    {
        assert(event_wf(evs[i as int]));
        match events[i] {
            Event::Bit { p, bit } => { e.encode_bit(p, bit); }
            Event::Rare { happens } => { e.encode_rare_event(happens); }
        }
        i += 1;
        assert(e.st() == after(evs, i as int));
        if e.run_length_0xff >= 0x7fff_ff00 { return None; }
    }
    let ghost f = after(evs, evs.len() as int);
    e.drop_();
    let ghost bytes = e.writer.bytes@;
    proof {
        assert(val(bytes) == 2 * f.0 && bytes.len() == f.2 + 4);
        range_ok(evs, evs.len() as int);
        nested(evs, 0, evs.len() as int);
        seen(bytes, f.0, f.2, 0);
        p256_pos(f.2 as nat);
        quotient(f.0, 0, 0x7fff_ffff, p256(f.2 as nat));
    }
    let source = Source { data: e.writer.bytes, pos: Ghost(0) };
    let mut d = Decoder::new(source);
    let mut out: Vec<Event> = Vec::new();
    let mut i: usize = 0;
    while i < events.len()
        invariant evs == events@, all_wf(evs), i <= events.len(), f == after(evs, evs.len() as int), f.0 >= 0, f.1 >= 1,
            d.wf(), d.reader.data@ == bytes, val(bytes) == 2 * f.0, bytes.len() == f.2 + 4,
            d.n() == after(evs, i as int).0, d.rc_range == after(evs, i as int).1, d.reader.pos@ == after(evs, i as int).2 + 4,
            out@ == evs.take(i as int),
        decreases events.len() - i
    {
        let ghost (a, b) = (after(evs, i as int), after(evs, i + 1));
        let ghost before = d;
        proof {
            range_ok(evs, i as int);
            range_ok(evs, i + 1);
            nested(evs, i + 1, evs.len() as int);
            norm_range(a.0, a.1, a.2);
            norm_shift(a.0, a.1, a.2, 4);
            part_bounds();
            assert(event_wf(evs[i as int]));
            let q = p256((f.2 - b.2) as nat);
            p256_pos((f.2 - b.2) as nat);
            seen(bytes, f.0, f.2, b.2);
            quotient(f.0, b.0, b.0 + b.1, q);
        }
        match events[i] {
            Event::Bit { p, bit } => {
                let decoded = d.decode_bit(p);
                assert(decoded == bit);
                out.push(Event::Bit { p, bit: decoded });
            }
            Event::Rare { happens } => {
                let decoded = d.decode_rare_event();
                assert(decoded == happens);
                out.push(Event::Rare { happens: decoded });
            }
        }
        assert(out@ =~= evs.take(i + 1));
        i += 1;
    }
    assert(out@ =~= events@);
    assert(d.reader.pos@ == d.reader.data@.len());
    Some((out, d))
}

/// Normalisation does not look at the digit count.
proof fn norm_shift(n: int, r: int, k: int, d: int)
    ensures norm(n, r, k + d).0 == norm(n, r, k).0, norm(n, r, k + d).1 == norm(n, r, k).1, norm(n, r, k + d).2 == norm(n, r, k).2 + d
    decreases (if 0 < r < 0x80_0000 { 0x80_0000 - r } else { 0 })
{
    if 0 < r < 0x80_0000 { norm_shift(n * 256, r * 256, k + 1, d); }
}
'''

BIT = dict(kind="impl", name="Bit", emit="impl Bit", file="src/bit/mod.rs", headers=["impl Bit"],
           only=["is_0", "is_1"],
           fns={"is_0": dict(spec="ensures res == (*self is Zero)"),
                "is_1": dict(spec="ensures res == (*self is One)")})

TARGET = dict(
    name="coder",
    properties=("C01", "C02"),
    prelude=PRELUDE,
    rewrites=[
        (r"&'a mut Write\b", "Sink", "the writer `&mut Write` is the trusted contract type Sink, held by value"),
        (r"&'a mut Read\b", "Source", "the reader `&mut Read` is the trusted contract type Source, held by value"),
        (r"(Encoder|Decoder)<'a>", r"\1", "lifetime parameter dropped"),
        (r"\bfn drop\(", "fn drop_(", "Drop::drop is verified as an ordinary method"),
    ],
    units=[
        dict(kind="enum", file="src/bit/mod.rs", name="Bit", attr="#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"),
        BIT,
        dict(kind="impl", name="Bit", emit="impl From<bool> for Bit", file="src/bit/mod.rs",
             headers=["impl From<bool> for Bit"], fns={"from": dict()}),
        dict(kind="struct", file="src/coding/mod.rs", name="FinalProbability", attr="#[derive(Clone, Copy)]\n"),
        dict(kind="impl", name="FinalProbability", emit="impl FinalProbability", file="src/coding/mod.rs",
             headers=["impl FixedPoint for FinalProbability"], skip=["Raw", "new_unchecked"],
             fns={"raw": dict(spec="ensures res == self.0")}),
        dict(kind="struct", file="src/coding/encoder.rs", name="Encoder"),
        dict(kind="struct", file="src/coding/decoder.rs", name="Decoder"),
        dict(kind="text", text=FLUSH),
        dict(kind="impl", name="Encoder", emit="impl Encoder", file="src/coding/encoder.rs",
             headers=["impl<'a> Encoder<'a>", "impl<'a> Drop for Encoder<'a>"], fns=ENC),
        dict(kind="impl", name="Decoder", emit="impl Decoder", file="src/coding/decoder.rs",
             headers=["impl<'a> Decoder<'a>"], fns=DEC),
    ],
    postlude=POST,
)
