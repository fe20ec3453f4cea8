//! Event sequences for the entropy coder (C01, C02), steered into its corners.
use crate::nd::eval::{Rng, thorough};
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::fixed_point::FixedPoint;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev { Bit(u32, bool), Rare(bool) }

pub const ONE: u32 = 1 << 23;

/// The documented interval arithmetic: low end (31 bits) and range, as a
/// reference that only steers the generator and counts renormalisations.
#[derive(Clone)]
pub struct Model { pub low: u64, pub range: u64, pub norms: u64 }
impl Model {
    pub fn new() -> Model { Model { low: 0, range: 0x7fff_ffff, norms: 0 } }
    pub fn norm(&mut self) {
        while self.range < 0x80_0000 {
            self.low = (self.low << 8) & 0x7fff_ffff;
            self.range <<= 8;
            self.norms += 1;
        }
    }
    pub fn step(&mut self, e: Ev) {
        self.norm();
        match e {
            Ev::Bit(p, v) => {
                let h = (self.range * p as u64) >> 23;
                if v { self.low += h; self.range -= h } else { self.range = h }
            }
            Ev::Rare(true) => { self.low += self.range - 1; self.range = 1 }
            Ev::Rare(false) => self.range -= 1,
        }
        self.low &= 0x7fff_ffff;
    }
}

pub fn encode(evs: &[Ev]) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    encode_to(evs, &mut out);
    out
}

pub fn encode_to<W: std::io::Write>(evs: &[Ev], out: &mut W) {
    {
        let mut e = Encoder::new(out);
        for &ev in evs {
            match ev {
                Ev::Bit(p, v) => e.encode_bit(FinalProbability::new_unchecked(p), v.into()),
                Ev::Rare(r) => e.encode_rare_event(r),
            }
        }
    }
}

/// Decodes; the events read back and the number of bytes left unread.
pub fn decode(evs: &[Ev], bytes: &[u8]) -> (Vec<Ev>, usize) {
    let mut src: &[u8] = bytes;
    let got = decode_from(evs, &mut src);
    (got, src.len())
}

pub fn decode_from<R: std::io::Read>(evs: &[Ev], src: &mut R) -> Vec<Ev> {
    let got;
    {
        let mut d = Decoder::new(src);
        got = evs.iter().map(|&ev| match ev {
            Ev::Bit(p, _) => Ev::Bit(p, d.decode_bit(FinalProbability::new_unchecked(p)).is_1()),
            Ev::Rare(_) => Ev::Rare(d.decode_rare_event()),
        }).collect();
    }
    got
}

/// A reader and writer that deliver one byte at a time and are interrupted
/// now and then, as `Read` and `Write` allow; the writer may also fail once.
pub struct Trickle { pub bytes: Vec<u8>, pub at: usize, pub fail_at: Option<usize>, pub r: Rng }

impl std::io::Read for Trickle {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() { return Ok(0) }
        if self.r.below(4) == 0 { return Err(std::io::ErrorKind::Interrupted.into()) }
        if self.at == self.bytes.len() { return Ok(0) }
        buf[0] = self.bytes[self.at];
        self.at += 1;
        Ok(1)
    }
}

impl std::io::Write for Trickle {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() { return Ok(0) }
        if self.r.below(4) == 0 { return Err(std::io::ErrorKind::Interrupted.into()) }
        if self.fail_at == Some(self.bytes.len()) {
            self.fail_at = None;
            return Err(std::io::ErrorKind::Other.into());
        }
        self.bytes.push(buf[0]);
        Ok(1)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn probability(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => 1 + r.below(3) as u32,
        1 => ONE - 1 - r.below(3) as u32,
        2 => ONE / 2,
        3 => 1 << r.below(23),
        4 => ONE - (1 << r.below(23)),
        _ => 1 + r.below((ONE - 1) as u64) as u32,
    }.max(1).min(ONE - 1)
}

/// A probability whose split of `range` is close to `target`.
fn split_at(range: u64, target: u64) -> u32 {
    ((target.max(1) << 23).div_ceil(range)).max(1).min(ONE as u64 - 1) as u32
}

/// An event that keeps the carry undecided, if one can.
fn straddle(m: &Model, r: &mut Rng) -> Ev {
    let edge = (1u64 << 31).saturating_sub(m.low);
    if m.low + m.range <= 1 << 31 {
        // get close to the edge: the upper part
        return Ev::Bit(probability(r), r.below(8) != 0);
    }
    let p = match r.below(6) {
        0 => split_at(m.range, edge),
        1 => split_at(m.range, edge.saturating_sub(1)),
        2 => split_at(m.range, edge + 1),
        3 => split_at(m.range, edge.saturating_sub(1 + r.below(1 << 16))),
        4 => split_at(m.range, edge + 1 + r.below(1 << 16)),
        _ => probability(r),
    };
    let h = (m.range * p as u64) >> 23;
    Ev::Bit(p, h < edge)
}

/// The same, never giving up the margin on either side of the carry.
fn keep_straddling(m: &Model, r: &mut Rng) -> Ev {
    let edge = (1u64 << 31).saturating_sub(m.low);
    if m.low + m.range <= 1 << 31 {
        return Ev::Bit(ONE / 2 + r.below(1 << 20) as u32, r.below(2) == 0);
    }
    let (below, above) = (edge, m.low + m.range - (1 << 31));
    let cut = 16 + r.below(1000);
    if below >= above {
        Ev::Bit(split_at(m.range, edge - 1 - below / cut), true)
    } else {
        Ev::Bit(split_at(m.range, edge + 1 + above / cut), false)
    }
}

pub fn sequence(case: u64, seed: u64) -> Vec<Ev> {
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case);
    let mut m = Model::new();
    let profile = case % 10;
    let big = if thorough() { 4 } else { 1 };
    let len = match (profile, case / 10 % 16) {
        (2, 0) => 40_000 * big, (3, 0) => 3_000 * big, (2, 1) if case < 1000 => 300_000 * big,
        (_, 15) => 3000, (_, k) => r.below(1 << (k / 2 + 2)) };
    let release = r.below(len + 1);
    let mut out = vec![];
    for i in 0..len {
        m.norm();
        let e = match profile {
            0 => Ev::Bit(1 + r.below(ONE as u64 - 1) as u32, r.below(2) == 0),
            1 => Ev::Bit(probability(&mut r), r.below(2) == 0),
            // long undecided runs, decided by a carry or its absence at some point
            2 | 4 if case / 10 % 2 == 1 && i == len - len / 16 && m.low + m.range > 1 << 31 =>
                Ev::Bit(split_at(m.range, (1 << 31) - m.low + r.below(3)), true),
            2 if len > 10_000 && i < len - len / 16 => keep_straddling(&m, &mut r),
            4 if i < release => keep_straddling(&m, &mut r),
            2 | 3 | 4 if i < release || r.below(40) != 0 =>
                straddle(&m, &mut r),
            // range exactly at, just above or below a power of two
            5 => {
                let t = (0x80_0000u64 >> [0, 0, 8, 16][r.below(4) as usize]) + r.below(3) - 1;
                let p = split_at(m.range, t.max(1));
                Ev::Bit(p, false)
            }
            6 => if r.below(3) == 0 { Ev::Rare(r.below(2) == 0) } else {
                Ev::Bit(probability(&mut r), r.below(2) == 0) },
            7 => if r.below(2) == 0 { Ev::Rare(r.below(4) == 0) } else { straddle(&m, &mut r) },
            // the low end stays put, or sticks to the upper end
            8 => if r.below(100) == 0 { Ev::Rare(true) } else { Ev::Bit(probability(&mut r), false) },
            9 => Ev::Bit(probability(&mut r), true),
            _ => Ev::Bit(probability(&mut r), r.below(2) == 0),
        };
        m.step(e);
        out.push(e);
    }
    out
}

/// Short sequences over a fixed alphabet, numbered.
pub const ALPHABET: [Ev; 14] = [
    Ev::Rare(false), Ev::Rare(true),
    Ev::Bit(1, false), Ev::Bit(1, true),
    Ev::Bit(ONE - 1, false), Ev::Bit(ONE - 1, true),
    Ev::Bit(ONE / 2, false), Ev::Bit(ONE / 2, true),
    Ev::Bit(255, false), Ev::Bit(255, true),
    Ev::Bit(ONE - 32768, false), Ev::Bit(ONE - 32768, true),
    Ev::Bit(3 << 14, false), Ev::Bit(5_592_406, true),
];
pub const SHORT: u64 = 1 + 14 + 196 + 2744 + 38416 + 537824 + 7529536;
pub fn short(mut n: u64) -> Vec<Ev> {
    let mut len = 0u32;
    while n >= 14u64.pow(len) { n -= 14u64.pow(len); len += 1 }
    (0..len).map(|_| { let e = ALPHABET[(n % 14) as usize]; n /= 14; e }).collect()
}

pub fn show(evs: &[Ev], upto: usize) -> String {
    let n = evs.len();
    let lo = upto.saturating_sub(4);
    format!("{} events, around {}: {:?}", n, upto, &evs[lo..(upto + 4).min(n)])
}
