//! C21: multi-dimensional indexing.
use crate::nd::*;
use demixer::util::indexer::*;

/// Mixed-radix value of a tuple (first dimension most significant).
fn horner(limits: &[usize], values: &[usize]) -> usize {
    let mut r = 0usize;
    let mut i = 0;
    while i < limits.len() {
        r = r * limits[i] + values[i];
        i += 1;
    }
    r
}

/// Dimensions and an in-range tuple.
fn any_shape<const N: usize>(top: usize) -> ([usize; N], [usize; N]) {
    let mut l = [0; N];
    let mut v = [0; N];
    let mut i = 0;
    while i < N {
        l[i] = any_in(1, top);
        v[i] = any_in(0, top - 1);
        assume(v[i] < l[i]);
        i += 1;
    }
    (l, v)
}

fn index_of<I: Indexer, const N: usize>(top: usize) {
    let (l, v) = any_shape::<N>(top);
    let (_, w) = any_shape::<N>(top);
    let mut i = 0;
    while i < N { assume(w[i] < l[i]); i += 1; }
    let mut ix = I::new(l.to_vec());
    reach!();
    // twice: the second tuple does not see the first
    let mut k = 0;
    while k < N { ix.with_sub_index(v[k]); k += 1; }
    assert!(ix.get_array_index_and_reset() == horner(&l, &v), "index: mixed-radix value");
    k = 0;
    while k < N { ix.with_sub_index(w[k]); k += 1; }
    assert!(ix.get_array_index_and_reset() == horner(&l, &w), "index: second tuple");
}

fn rejects_bad_value<I: Indexer, const N: usize>() {
    let mut l = [0; N];
    let mut i = 0;
    while i < N { l[i] = any(); i += 1; }
    let bad: usize = any_in(0, N - 1);
    let v: usize = any();
    assume(v >= l[bad]);
    let mut ix = I::new(l.to_vec());
    i = 0;
    while i < bad {
        assume(l[i] > 0);
        let x: usize = any();
        assume(x < l[i]);
        ix.with_sub_index(x);
        i += 1;
    }
    rejects(|| { ix.with_sub_index(v); });
}

fn rejects_missing<I: Indexer, const N: usize>() {
    let mut l = [0; N];
    let mut i = 0;
    while i < N { l[i] = any(); assume(l[i] > 0); i += 1; }
    let given: usize = any_in(0, N - 1);
    let mut ix = I::new(l.to_vec());
    i = 0;
    while i < given { ix.with_sub_index(0); i += 1; }
    rejects(|| ix.get_array_index_and_reset());
}

fn rejects_surplus<I: Indexer, const N: usize>() {
    let mut l = [0; N];
    let mut i = 0;
    while i < N { l[i] = any(); assume(l[i] > 0); i += 1; }
    let mut ix = I::new(l.to_vec());
    i = 0;
    while i < N { ix.with_sub_index(0); i += 1; }
    let v: usize = any();
    rejects(|| { ix.with_sub_index(v); });
}

fn size_of<I: Indexer, const N: usize>(top: usize) {
    let (l, _) = any_shape::<N>(top);
    let mut ix = I::new(l.to_vec());
    reach!();
    let mut p = 1usize;
    let mut i = 0;
    while i < N { p = p * l[i]; i += 1; }
    assert!(ix.get_array_size() == p, "size: product of the limits");
}

harnesses! {
    //@@ of: util::indexer::Indexer::{new,new_uninitialized,with_sub_index,get_array_index_and_reset}
    //@ bound: one and two dimensions: every limit up to 2^31 (every shape: Verus)
    #[kani::unwind(8)]
    fn c21_index1() { index_of::<Indexer1, 1>(1 << 31) }
    //@ bound: limits up to 2^31 (every shape: Verus)
    #[kani::unwind(8)]
    #[kani::solver(z3)]
    fn c21_index2() { index_of::<Indexer2, 2>(1 << 31) }
    //@ bound: limits up to 2^12 (every shape: Verus)
    #[kani::unwind(8)]
    #[kani::solver(z3)]
    fn c21_index3() { index_of::<Indexer3, 3>(1 << 12) }
    //@ bound: limits up to 2^10 (every shape: Verus)
    #[kani::unwind(8)]
    #[kani::solver(z3)]
    fn c21_index4() { index_of::<Indexer4, 4>(1 << 10) }
    //@ bound: limits up to 16 (every shape: Verus)
    #[kani::unwind(8)]
    #[kani::solver(kissat)]
    fn c21_index5() { index_of::<Indexer5, 5>(16) }
    //@ bound: limits up to 16 (every shape: Verus)
    #[kani::unwind(8)]
    #[kani::solver(kissat)]
    fn c21_index6() { index_of::<Indexer6, 6>(16) }
    //@@ of: util::indexer::Indexer::with_sub_index
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_range1() { rejects_bad_value::<Indexer1, 1>() }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_range2() { rejects_bad_value::<Indexer2, 2>() }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_range3() { rejects_bad_value::<Indexer3, 3>() }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_range4() { rejects_bad_value::<Indexer4, 4>() }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_range5() { rejects_bad_value::<Indexer5, 5>() }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_range6() { rejects_bad_value::<Indexer6, 6>() }
    //@@ of: util::indexer::Indexer::{with_sub_index,get_array_index_and_reset}
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_missing1() { rejects_missing::<Indexer1, 1>() }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_missing4() { rejects_missing::<Indexer4, 4>() }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_missing6() { rejects_missing::<Indexer6, 6>() }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_surplus1() { rejects_surplus::<Indexer1, 1>() }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_surplus4() { rejects_surplus::<Indexer4, 4>() }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_surplus6() { rejects_surplus::<Indexer6, 6>() }
    //@@ of: util::indexer::Indexer::get_array_size
    //@ bound: limits up to 16 (every shape: Verus)
    #[kani::unwind(8)]
    #[kani::solver(kissat)]
    fn c21_size6() { size_of::<Indexer6, 6>(16) }
    //@ bound: limits up to 2^31 (every shape: Verus)
    #[kani::unwind(8)]
    #[kani::solver(z3)]
    fn c21_size2() { size_of::<Indexer2, 2>(1 << 31) }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_size_busy() {
        let mut ix = Indexer3::new(vec![5, 6, 7]);
        let v: usize = any_in(0, 4);
        ix.with_sub_index(v);
        rejects(|| ix.get_array_size());
    }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_wrong_arity() {
        let n: usize = any_in(0, 5);
        assume(n != 3);
        rejects(|| Indexer3::new(vec![2; n]));
    }
    #[kani::unwind(8)]
    #[kani::should_panic]
    fn c21_size_overflow() {
        // a table that does not fit is refused
        let (a, b): (usize, usize) = (any_in(1 << 32, usize::MAX), any_in(1 << 32, usize::MAX));
        let mut ix = Indexer2::new(vec![a, b]);
        rejects(|| ix.get_array_size());
    }
}

#[cfg(not(kani))]
fn bijection<I: Indexer>(l: &[usize]) -> Result<(), String> {
    let mut ix = I::new(l.to_vec());
    let size = ix.get_array_size();
    let product: usize = l.iter().product();
    ensure!(size == product, "{:?}: table of {} instead of {}", l, size, product);
    let mut hit = vec![false; size];
    let mut v = vec![0; l.len()];
    for _ in 0..product {
        for &x in &v { ix.with_sub_index(x); }
        let i = ix.get_array_index_and_reset();
        ensure!(i < size, "{:?} in {:?}: slot {} of {}", v, l, i, size);
        ensure!(!hit[i], "{:?} in {:?}: slot {} used twice", v, l, i);
        hit[i] = true;
        for d in (0..l.len()).rev() {
            v[d] += 1;
            if v[d] < l[d] { break }
            v[d] = 0;
        }
    }
    ensure!(hit.iter().all(|&h| h), "{:?}: a slot is never reached", l);
    Ok(())
}

evals! {
    //@ of: util::indexer::Indexer::{new,get_array_size,with_sub_index,get_array_index_and_reset}
    //@ bound: all shapes with every limit up to 5 (1 to 4 dimensions) or 3 (5 and 6 dimensions)
    //@ rule: every tuple of every shape, distinct slots, all slots reached
    fn c21_bijection() {
        let mut total = eval::Report::default();
        for dims in 1..=6u32 {
            let top: u64 = if dims <= 4 { 5 } else { 3 };
            let r = eval::par(top.pow(dims), |case| {
                let mut c = case;
                let l: Vec<usize> = (0..dims).map(|_| { let x = c % top + 1; c /= top; x as usize }).collect();
                match dims {
                    1 => bijection::<Indexer1>(&l), 2 => bijection::<Indexer2>(&l),
                    3 => bijection::<Indexer3>(&l), 4 => bijection::<Indexer4>(&l),
                    5 => bijection::<Indexer5>(&l), _ => bijection::<Indexer6>(&l),
                }
            })?;
            total = total.merge(r);
        }
        Ok(total)
    }
}
