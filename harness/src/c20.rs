//! C20: last-bytes cache.
use crate::nd::*;
use demixer::bit::Bit;
use demixer::util::last_bytes::{LastBytesCache, UnfinishedByte};

/// Abstract state: finished bytes before the current one (most recent first)
/// and the bits of the unfinished byte; `None` between bytes.
#[derive(Clone, Copy, PartialEq)]
struct View { last: u8, prev: [u8; 3], open: Option<(u32, u32)> }

/// Representation: bit_index counts the bits still missing minus one, bits
/// not yet received are zero.  Between bytes the four last bytes are held.
fn repr(v: &View) -> LastBytesCache {
    let p = v.prev;
    match v.open {
        None => LastBytesCache::verif_from_parts(-1,
            (v.last as u32) | (p[0] as u32) << 8 | (p[1] as u32) << 16 | (p[2] as u32) << 24),
        Some((n, bits)) => LastBytesCache::verif_from_parts(7 - n as i32,
            (bits << (8 - n)) | (p[0] as u32) << 8 | (p[1] as u32) << 16 | (p[2] as u32) << 24),
    }
}

fn is_repr(c: &LastBytesCache, v: &View) -> bool { c.verif_parts() == repr(v).verif_parts() }

fn any_open() -> View {
    let n: u32 = any_in(0u32, 7);
    let bits: u32 = any();
    assume(bits < 1 << n);
    View { last: 0, prev: [any(), any(), any()], open: Some((n, bits)) }
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    let mut i = 0;
    while i < bytes.len() {
        h = (h ^ bytes[i] as u64).wrapping_mul(0x100000001b3);
        i += 1;
    }
    h
}
fn fold16(h: u64) -> u16 { let x = (h ^ (h >> 32)) as u32; (x ^ (x >> 16)) as u16 }

harnesses! {
    //@@ of: util::last_bytes::LastBytesCache::{new,start_new_byte,on_next_bit}
    fn c20_new() {
        let v = View { last: 0, prev: [0, 0, 0], open: None };
        assert!(is_repr(&LastBytesCache::new(), &v), "new: no bytes");
        reach!();
    }
    fn c20_start_byte() {
        let v = View { last: any(), prev: [any(), any(), any()], open: None };
        let mut c = repr(&v);
        reach!();
        c.start_new_byte();
        let w = View { last: 0, prev: [v.last, v.prev[0], v.prev[1]], open: Some((0, 0)) };
        assert!(is_repr(&c, &w), "start_new_byte: previous bytes shifted");
        assert!(c.previous_byte_1() == v.last && c.previous_byte_2() == v.prev[0]
            && c.previous_byte_3() == v.prev[1], "previous bytes: in order");
    }
    fn c20_next_bit() {
        let v = any_open();
        let (n, bits) = v.open.unwrap();
        let mut c = repr(&v);
        let b = any_bit();
        reach!();
        c.on_next_bit(b);
        let bits = bits << 1 | b.to_u32();
        let w = if n < 7 { View { open: Some((n + 1, bits)), ..v } }
            else { View { last: bits as u8, prev: v.prev, open: None } };
        assert!(is_repr(&c, &w), "on_next_bit: appended");
    }
    //@@ of: util::last_bytes::LastBytesCache::{unfinished_byte,previous_byte_1,previous_byte_2,previous_byte_3,hash01_16}
    fn c20_readers() {
        let v = any_open();
        let (n, bits) = v.open.unwrap();
        let c = repr(&v);
        reach!();
        assert!(c.unfinished_byte().raw() as u32 == (1 << n) | bits, "unfinished_byte: count and bits");
        assert!(c.previous_byte_1() == v.prev[0], "previous_byte_1");
        assert!(c.previous_byte_2() == v.prev[1], "previous_byte_2");
        assert!(c.previous_byte_3() == v.prev[2], "previous_byte_3");
        assert!((c.unfinished_byte() == UnfinishedByte::EMPTY) == (n == 0), "EMPTY");
        let d = c.clone();
        assert!(d.verif_parts() == c.verif_parts(), "clone");
        // order-1 hash: injective in (previous byte, bits, their number)
        let h = c.hash01_16() as u32;
        assert!(h == (1 << (8 + n)) | ((v.prev[0] as u32) << n | bits), "hash01: injective encoding");
    }
    #[kani::solver(kissat)]
    //@@ of: util::last_bytes::LastBytesCache::{hash02_16,hash03_16}
    fn c20_hash02() {
        let v = any_open();
        let (n, bits) = v.open.unwrap();
        let c = repr(&v);
        let u = ((1 << n) | bits) as u8;
        reach!();
        assert!(c.hash02_16() == fold16(fnv(&[v.prev[1], v.prev[0], u])), "hash02: of two bytes and bits");
    }
    #[kani::solver(kissat)]
    fn c20_hash03() {
        let v = any_open();
        let (n, bits) = v.open.unwrap();
        let c = repr(&v);
        let u = ((1 << n) | bits) as u8;
        reach!();
        assert!(c.hash03_16() == fold16(fnv(&[v.prev[2], v.prev[1], v.prev[0], u])), "hash03: of three bytes and bits");
    }
    //@@ of: util::last_bytes::LastBytesCache::{start_new_byte,on_next_bit,unfinished_byte,previous_byte_1,previous_byte_2,previous_byte_3,hash01_16,hash02_16,hash03_16}
    #[kani::should_panic]
    fn c20_rejects_start() {
        let mut c = repr(&any_open());
        rejects(|| c.start_new_byte());
    }
    #[kani::should_panic]
    fn c20_rejects_between_bytes() {
        let v = View { last: any(), prev: [any(), any(), any()], open: None };
        let mut c = repr(&v);
        let k: u8 = any_in(0u8, 7);
        let b = any_bit();
        match k {
            0 => rejects(|| c.on_next_bit(b)),
            1 => rejects(|| c.unfinished_byte()),
            2 => rejects(|| c.previous_byte_1()),
            3 => rejects(|| c.previous_byte_2()),
            4 => rejects(|| c.previous_byte_3()),
            5 => rejects(|| c.hash01_16()),
            6 => rejects(|| c.hash02_16()),
            _ => rejects(|| c.hash03_16()),
        }
    }
}

evals! {}
