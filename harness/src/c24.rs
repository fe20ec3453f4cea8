//! C24: MT19937-64.
use crate::nd::*;
use demixer::random::MersenneTwister;

const NN: usize = 312;
const MM: usize = 156;

/// Any state, but with symbolic content only where one recurrence step looks.
fn twist(hi: u64, lo: u64, far: u64) -> u64 {
    let x = (hi & !0x7fff_ffffu64) | (lo & 0x7fff_ffff);
    far ^ (x >> 1) ^ if x & 1 == 1 { 0xB5026F5AA96619E9 } else { 0 }
}
fn temper(mut x: u64) -> u64 {
    x ^= (x >> 29) & 0x5555555555555555;
    x ^= (x << 17) & 0x71D67FFFEDA60000;
    x ^= (x << 37) & 0xFFF7EEE000000000;
    x ^ (x >> 43)
}

#[cfg(not(kani))]
mod reference {
    /// Nishimura and Matsumoto's mt19937-64.c, transcribed.
    pub struct Mt { pub mt: Vec<u64>, pub mti: usize }
    impl Mt {
        pub fn scalar(seed: u64) -> Mt {
            let mut mt = vec![seed];
            for i in 1..312u64 {
                let p = mt[i as usize - 1];
                mt.push(6364136223846793005u64.wrapping_mul(p ^ (p >> 62)).wrapping_add(i));
            }
            Mt { mt, mti: 312 }
        }
        pub fn vector(key: &[u64]) -> Mt {
            let mut s = Mt::scalar(19650218);
            let (mut i, mut j) = (1usize, 0usize);
            let mut k = if 312 > key.len() { 312 } else { key.len() };
            while k > 0 {
                let p = s.mt[i - 1];
                s.mt[i] = (s.mt[i] ^ (p ^ (p >> 62)).wrapping_mul(3935559000370003845))
                    .wrapping_add(key[j]).wrapping_add(j as u64);
                i += 1; j += 1;
                if i >= 312 { s.mt[0] = s.mt[311]; i = 1 }
                if j >= key.len() { j = 0 }
                k -= 1;
            }
            for _ in 0..311 {
                let p = s.mt[i - 1];
                s.mt[i] = (s.mt[i] ^ (p ^ (p >> 62)).wrapping_mul(2862933555777941757))
                    .wrapping_sub(i as u64);
                i += 1;
                if i >= 312 { s.mt[0] = s.mt[311]; i = 1 }
            }
            s.mt[0] = 1 << 63;
            s
        }
        pub fn next(&mut self) -> u64 {
            if self.mti >= 312 {
                for k in 0..312 {
                    self.mt[k] = super::twist(self.mt[k], self.mt[(k + 1) % 312], self.mt[(k + 156) % 312]);
                }
                self.mti = 0;
            }
            self.mti += 1;
            super::temper(self.mt[self.mti - 1])
        }
    }
}

harnesses! {
    //@@ of: random::MersenneTwister::next_int64
    #[kani::unwind(314)]
    fn c24_next_in_block() {
        let mut st = [0u64; NN];
        let i: usize = any_in(0usize, NN - 1);
        let w: u64 = any();
        st[i] = w;
        let mut mt = MersenneTwister::verif_from_parts(st, i);
        reach!();
        assert!(mt.next_int64() == temper(w), "next_int64: tempered word");
        assert!(mt.verif_parts().1 == i + 1, "next_int64: next position");
        assert!(mt.verif_parts().0[i] == w, "next_int64: word kept");
    }
    #[kani::unwind(314)]
    fn c24_next_refill() {
        // every word symbolic; each new word by the recurrence
        let mut st = [0u64; NN];
        let mut i = 0;
        while i < NN { st[i] = any(); i += 1; }
        let mut mt = MersenneTwister::verif_from_parts(st, NN);
        reach!();
        let r = mt.next_int64();
        let (new, idx) = mt.verif_parts();
        assert!(idx == 1, "refill: position");
        assert!(r == temper(new[0]), "refill: first word tempered");
        let mut k = 0;
        let mut ok = true;
        while k < NN {
            let lo = if k + 1 < NN { st[k + 1] } else { new[0] };
            let far = if k + MM < NN { st[k + MM] } else { new[k + MM - NN] };
            ok &= new[k] == twist(st[k], lo, far);
            k += 1;
        }
        assert!(ok, "refill: recurrence");
    }
    //@@ of: random::MersenneTwister::new_by_scalar_seed
    #[kani::unwind(314)]
    #[kani::solver(z3)]
    fn c24_scalar_seed() {
        let seed: u64 = any();
        let mt = MersenneTwister::new_by_scalar_seed(seed);
        let (s, idx) = mt.verif_parts();
        reach!();
        assert!(idx == NN && s.len() == NN && MersenneTwister::VERIF_NN == NN, "seed: position");
        assert!(s[0] == seed, "seed: first word");
        let mut k = 1;
        while k < NN {
            let p = s[k - 1];
            assert!(s[k] == 6364136223846793005u64.wrapping_mul(p ^ (p >> 62)).wrapping_add(k as u64),
                    "seed: linear recurrence");
            k += 1;
        }
    }
    //@@ of: random::MersenneTwister::{next_int63,next_real1,next_real2,next_real3}
    #[kani::unwind(314)]
    fn c24_derived() {
        let mut st = [0u64; NN];
        let w: u64 = any();
        st[7] = w;
        let make = || MersenneTwister::verif_from_parts(st, 7);
        let x = temper(w);
        reach!();
        assert!(make().next_int63() == (x >> 1) as i64, "next_int63: upper 63 bits");
        assert!(make().next_int63() >= 0, "next_int63: not negative");
        let r1 = make().next_real1();
        let r2 = make().next_real2();
        let r3 = make().next_real3();
        assert!(r1 >= 0.0 && r1 <= 1.0, "next_real1: [0, 1]");
        assert!(r2 >= 0.0 && r2 < 1.0, "next_real2: [0, 1)");
        assert!(r3 > 0.0 && r3 < 1.0, "next_real3: (0, 1)");
    }
}

evals! {
    //@ of: random::MersenneTwister::{new_by_scalar_seed,new_by_vector_seed,next_int64,default}
    //@ bound: 300 scalar seeds and vector seeds of every length 1..700, 1300 outputs each
    //@ rule: seeds from VERIF_SEED, compared word by word with the reference implementation
    fn c24_reference() {
        use reference::Mt;
        let mut d = MersenneTwister::default();
        let mut m = Mt::scalar(5489);
        for i in 0..1000 { ensure!(d.next_int64() == m.next(), "default seed differs at {}", i); }
        let s = eval::seed();
        eval::par(1000, |i| {
            let mut r = eval::Rng(s.wrapping_mul(1000003).wrapping_add(i));
            let (mut a, mut b, what);
            if i < 300 {
                let seed = match i { 0 => 0, 1 => 1, 2 => u64::MAX, 3 => 19650218, _ => r.next() };
                a = MersenneTwister::new_by_scalar_seed(seed);
                b = Mt::scalar(seed);
                what = format!("scalar seed {}", seed);
            } else {
                let n = i as usize - 299;
                let key: Vec<u64> = (0..n).map(|k| match (i + k as u64) % 5 { 0 => 0, 1 => u64::MAX, _ => r.next() }).collect();
                a = MersenneTwister::new_by_vector_seed(&key);
                b = Mt::vector(&key);
                what = format!("vector seed of length {} {:?}..", n, &key[..n.min(3)]);
            }
            for k in 0..1300 {
                let (x, y) = (a.next_int64(), b.next());
                ensure!(x == y, "{}: output {} is {} instead of {}", what, k, x, y);
            }
            Ok(())
        })
    }
}
