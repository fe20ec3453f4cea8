//! C23: FNV-1a.
use crate::nd::*;
use demixer::util::hash::Fnv1A;

harnesses! {
    //@@ of: util::hash::Fnv1A::{new,mix_byte,into_u64,into_u32,into_u16}
    #[kani::solver(kissat)]
    fn c23_mix_byte() {
        // one step from any state; any byte string by induction
        let s: u64 = any();
        let b: u8 = any();
        reach!();
        let mut h = Fnv1A::verif_from_raw(s);
        h.mix_byte(b);
        // prime 2^40 + 2^8 + 0xb3, written without a general multiplication
        let x = s ^ b as u64;
        let want = (x << 40).wrapping_add(x << 8).wrapping_add(x.wrapping_mul(0xb3));
        assert!(h.into_u64() == want, "mix_byte: xor, multiply by the prime");
    }
    fn c23_forms() {
        let s: u64 = any();
        reach!();
        let f = |s| Fnv1A::verif_from_raw(s);
        assert!(f(s).into_u64() == s, "into_u64: state");
        let x = ((s >> 32) ^ (s & 0xffff_ffff)) as u32;
        assert!(f(s).into_u32() == x, "into_u32: halves xored");
        assert!(f(s).into_u16() == ((x >> 16) ^ (x & 0xffff)) as u16, "into_u16: quarters xored");
        assert!(Fnv1A::new().into_u64() == 14695981039346656037, "new: offset basis");
    }
}

evals! {}
