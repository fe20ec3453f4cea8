//! Nondeterministic values, assumptions and reachability covers.
//!
//! Under Kani `any()` is a symbolic value.  In a native build the same harness
//! runs on concrete values: either those of a Kani counterexample (replay of a
//! failed obligation on the real code) or pseudo-random ones (search for a
//! failing input after a failed obligation without counterexample).

#[cfg(kani)]
mod imp {
    pub fn any<T: kani::Arbitrary>() -> T { kani::any() }
    pub fn assume(c: bool) { kani::assume(c) }
    pub fn any_where<T: kani::Arbitrary, F: Fn(&T) -> bool>(f: F) -> T {
        let x: T = kani::any();
        kani::assume(f(&x));
        x
    }
    pub fn any_in<T: kani::Arbitrary + PartialOrd>(lo: T, hi: T) -> T {
        let x: T = kani::any();
        kani::assume(lo <= x && x <= hi);
        x
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    pub enum Source {
        Replay(Vec<Vec<u8>>, usize),
        Random(u64),
    }

    thread_local! {
        pub static SRC: RefCell<Source> = RefCell::new(Source::Random(1));
        pub static LOG: RefCell<Vec<Vec<u8>>> = RefCell::new(Vec::new());
        pub static QUIET: RefCell<bool> = RefCell::new(false);
        pub static REJECTED: RefCell<bool> = RefCell::new(false);
    }

    pub struct Rejected;

    fn reject() -> ! {
        REJECTED.with(|r| *r.borrow_mut() = true);
        std::panic::resume_unwind(Box::new(Rejected))
    }

    pub fn assume(c: bool) { if !c { reject() } }

    fn next_u64() -> u64 {
        SRC.with(|s| match &mut *s.borrow_mut() {
            Source::Random(x) => {
                // splitmix64
                *x = x.wrapping_add(0x9E3779B97F4A7C15);
                let mut z = *x;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                z ^ (z >> 31)
            }
            _ => unreachable!(),
        })
    }

    fn replayed(n: usize) -> Option<Vec<u8>> {
        SRC.with(|s| match &mut *s.borrow_mut() {
            Source::Replay(v, pos) => {
                let r = v.get(*pos).cloned().unwrap_or_else(|| vec![0; n]);
                *pos += 1;
                let mut r = r;
                r.resize(n, 0);
                Some(r)
            }
            _ => None,
        })
    }

    pub trait Nd: Copy + PartialOrd {
        fn get() -> Self;
        fn get_in(lo: Self, hi: Self) -> Self;
    }

    macro_rules! nd_int { ($($t:ty),*) => { $(
        impl Nd for $t {
            fn get() -> Self { Self::get_in(<$t>::MIN, <$t>::MAX) }
            fn get_in(lo: Self, hi: Self) -> Self {
                const N: usize = std::mem::size_of::<$t>();
                let v = if let Some(b) = replayed(N) {
                    let mut a = [0u8; N];
                    a.copy_from_slice(&b);
                    <$t>::from_le_bytes(a)
                } else {
                    // a mix of uniform values, values near the ends and
                    // values near powers of two
                    let span = (hi as i128) - (lo as i128) + 1;
                    let r = next_u64();
                    let k = next_u64() as i128;
                    let off = match r % 8 {
                        0 => k.rem_euclid(4).min(span - 1),
                        1 => span - 1 - k.rem_euclid(4).min(span - 1),
                        2 | 3 => {
                            let sh = (r >> 8) % 64;
                            ((1i128 << sh) - 2 + k.rem_euclid(4))
                                .rem_euclid(span)
                        }
                        4 => {
                            // around zero, for signed ranges
                            let v = k.rem_euclid(7) - 3;
                            (v - lo as i128).rem_euclid(span)
                        }
                        5 => {
                            let sh = (r >> 8) % 64;
                            (k.rem_euclid(1i128 << (sh + 1))).rem_euclid(span)
                        }
                        _ => k.rem_euclid(span),
                    };
                    ((lo as i128) + off) as $t
                };
                LOG.with(|l| l.borrow_mut().push(v.to_le_bytes().to_vec()));
                v
            }
        }
    )* } }
    nd_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

    impl Nd for bool {
        fn get() -> Self { <u8 as Nd>::get_in(0, 1) & 1 == 1 }
        fn get_in(_: Self, _: Self) -> Self { Self::get() }
    }

    pub fn any<T: Nd>() -> T { T::get() }
    pub fn any_in<T: Nd>(lo: T, hi: T) -> T {
        let x = T::get_in(lo, hi);
        assume(lo <= x && x <= hi);
        x
    }
    pub fn any_where<T: Nd, F: Fn(&T) -> bool>(f: F) -> T {
        let mut x = T::get();
        let random = SRC.with(|s| matches!(*s.borrow(), Source::Random(_)));
        let mut tries = 0;
        while random && !f(&x) && tries < 100 {
            LOG.with(|l| l.borrow_mut().pop());
            x = T::get();
            tries += 1;
        }
        assume(f(&x));
        x
    }
}

pub use imp::*;

/// Reachability: the check fails as vacuous when Kani cannot reach this point.
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        { let _ = $c; }
    };
    ($c:expr) => { reach!($c, "reachable") };
    () => { reach!(true, "reachable") };
}

/// Declares proof harnesses and registers them for native replay.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            $(#[cfg_attr(kani, $m)])*
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const LIST: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
    };
}

/// The real code must reject (panic on) this call.  Under Kani the harness is
/// marked `should_panic` and the point after the call must be unreachable.
#[cfg(kani)]
pub fn rejects<T, F: FnOnce() -> T>(f: F) {
    let r = f();
    std::mem::forget(r);
    kani::cover!(true, "NEVER: accepted although it must be rejected");
}

#[cfg(not(kani))]
pub fn rejects<T, F: FnOnce() -> T>(f: F) {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    match r {
        Ok(x) => {
            std::mem::forget(x);
            panic!("accepted although it must be rejected")
        }
        Err(e) => {
            if REJECTED.with(|r| *r.borrow()) { std::panic::resume_unwind(e) }
            // an overflow check is compiled out of release builds
            let m = e.downcast_ref::<String>().map(|s| s.as_str())
                .or_else(|| e.downcast_ref::<&str>().copied()).unwrap_or("");
            assert!(!m.contains("with overflow"), "wraps: {}", m);
        }
    }
}

pub fn any_bit() -> demixer::bit::Bit { any::<bool>().into() }

// ---------------------------------------------------------------------------
// Native evaluation of finite domains (complete, or bounded where so labelled).

#[cfg(not(kani))]
pub mod eval {
    use std::panic;
    use std::sync::atomic::{AtomicU64, AtomicBool, Ordering};
    use std::sync::Mutex;

    #[derive(Default)]
    pub struct Report {
        pub evaluations: u64,
        pub distinct: u64,
        pub samples: Vec<String>,
    }
    pub type Outcome = Result<Report, String>;

    pub fn thorough() -> bool {
        std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
    }
    pub fn seed() -> u64 {
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
    }

    pub fn message(e: &Box<dyn std::any::Any + Send>) -> String {
        e.downcast_ref::<String>().cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    }

    /// Runs `f` on 0..n on all cores; the failure with the least index wins.
    pub fn par<F>(n: u64, f: F) -> Outcome
        where F: Fn(u64) -> Result<(), String> + Sync {
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let fail: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let chunk = (n / 256).max(1).min(1 << 16);
        let threads = std::thread::available_parallelism()
            .map(|x| x.get()).unwrap_or(4);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    super::QUIET.with(|q| *q.borrow_mut() = true);
                    while !stop.load(Ordering::Relaxed) {
                        let lo = next.fetch_add(chunk, Ordering::Relaxed);
                        if lo >= n { break }
                        for i in lo..(lo + chunk).min(n) {
                            let r = panic::catch_unwind(
                                panic::AssertUnwindSafe(|| f(i)));
                            let err = match r {
                                Ok(Ok(())) => continue,
                                Ok(Err(m)) => m,
                                Err(e) => format!("case {}: panicked: {}", i,
                                                  message(&e)),
                            };
                            stop.store(true, Ordering::Relaxed);
                            let mut g = fail.lock().unwrap();
                            if g.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                                *g = Some((i, err));
                            }
                            break;
                        }
                    }
                });
            }
        });
        match fail.into_inner().unwrap() {
            Some((_, m)) => Err(m),
            None => Ok(Report { evaluations: n, distinct: n, samples: vec![] }),
        }
    }

    impl Report {
        pub fn sample(mut self, s: String) -> Self { self.samples.push(s); self }
        pub fn merge(mut self, o: Report) -> Self {
            self.evaluations += o.evaluations;
            self.distinct += o.distinct;
            self.samples.extend(o.samples);
            self
        }
    }

    pub struct Rng(pub u64);
    impl Rng {
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    }
}

/// `Err` with a message unless the condition holds (for evaluations).
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// Declares native evaluations.
#[macro_export]
macro_rules! evals {
    ($(fn $name:ident() $body:block)*) => {
        $(
            #[cfg(not(kani))]
            pub fn $name() -> $crate::nd::eval::Outcome $body
        )*
        #[cfg(not(kani))]
        pub const EVALS: &[(&str, fn() -> $crate::nd::eval::Outcome)] =
            &[$((stringify!($name), $name)),*];
    };
    () => {
        #[cfg(not(kani))]
        pub const EVALS: &[(&str, fn() -> $crate::nd::eval::Outcome)] = &[];
    };
}
