//! C19: the sliding window of the suffix tree.
use crate::nd::*;
use crate::ensure;
#[cfg(not(kani))]
use crate::hist::*;
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use demixer::history::tree::TreeHistorySource;

/// The tree against the contract model for one input, window and shift.
#[cfg(not(kani))]
pub fn follow(x: &[u8], window: usize, max_order: usize, shift: usize, salt: u64,
              deep: bool) -> Result<(), String> {
    let luts = luts();
    let mut t = TreeHistorySource::new_special(window, max_order, shift, luts);
    let mut m = Model::new(window, max_order, luts);
    let mut c = ctx_of(max_order);
    for (p, &byte) in x.iter().enumerate() {
        let what = |k: usize| format!("input {} window {} order limit {} shift {} byte {} bit {}",
                                      shown(&x[..p + 1]), window, max_order, shift, p, k);
        t.start_new_byte();
        m.start_new_byte();
        if deep {
            t.check_integrity_on_next_byte();
            structure(&t, &m, shift).map_err(|e| format!("{}: {}", what(7), e))?;
        }
        for k in (0..8).rev() {
            gather(&t, &mut c);
            let want = m.report(k);
            ensure!(c.items() == &want[..], "{}: reported {} instead of {}", what(k), render(c.items()), render(&want));
            let costs: Vec<_> = c.items().iter().enumerate().filter(|(_, s)| s.is_for_node())
                .map(|(o, _)| some_costs(p, k, o, salt)).collect();
            let b = bit_at(byte, k);
            t.process_input_bit(b, &costs);
            m.process(b, k, &costs);
        }
    }
    Ok(())
}

/// `follow`, with the input in the message also when the code panics.
#[cfg(not(kani))]
pub fn follow_case(x: &[u8], window: usize, max_order: usize, shift: usize, salt: u64,
                   deep: bool) -> Result<(), String> {
    match std::panic::catch_unwind(|| follow(x, window, max_order, shift, salt, deep)) {
        Ok(r) => r,
        Err(e) => Err(format!("input {} window {} order limit {} shift {}: panicked: {}",
                              shown(x), window, max_order, shift, eval::message(&e))),
    }
}

#[cfg(not(kani))]
pub const PAIRS: [(u8, u8); 6] = [(97, 98), (0, 255), (0, 128), (32, 33), (31, 32), (215, 15)];

harnesses! {
}

evals! {
    //@@ of: history::tree::Tree::{start_new_byte,remove_leftmost_suffix,extend,gather_states,split_edge,setup_split_edge,split_degenerate_root_edge}, history::tree::context::Context::descend, history::tree::context::ActiveContexts::{shift,keep_only}, history::tree::TreeHistorySource::{new_special,start_new_byte,gather_history_states,process_input_bit}
    //@ bound: all inputs of 13 bytes over 2 symbols (16 in the thorough tier), windows of 1 to 8 bytes
    //@ rule: every string over two symbols (six pairs by turns), every window size, order limits 0 to 4, shifts spread
    fn c19_all_short_binary() {
        let n = if eval::thorough() { 16u64 } else { 13 };
        let windows = 8u64;
        let orders = 5u64;
        let strings = 1u64 << n;
        eval::par(strings * windows * orders, |i| {
            let s = i % strings;
            let w = (i / strings % windows) as usize + 1;
            let o = (i / strings / windows) as usize;
            let (a, b) = PAIRS[(s as usize * 7 + w * 3 + o) % PAIRS.len()];
            let x: Vec<u8> = (0..n).map(|j| if s >> j & 1 == 0 { a } else { b }).collect();
            follow_case(&x, w, o, (s as usize + o) % w, i, true)
        })
    }
    //@ bound: all inputs of 8 bytes over 3 symbols (10 in the thorough tier), windows of 1 to 7 bytes
    //@ rule: every string over three symbols (three triples by turns), every window size, order limits 0 to 3, shifts spread
    fn c19_all_short_ternary() {
        let n = if eval::thorough() { 10u32 } else { 8 };
        let triples = [[97u8, 98, 99], [0, 128, 255], [96, 97, 32]];
        let strings = 3u64.pow(n);
        eval::par(strings * 7 * 4, |i| {
            let s = i % strings;
            let w = (i / strings % 7) as usize + 1;
            let o = (i / strings / 7) as usize;
            let t = triples[(s as usize + w + o) % 3];
            let x: Vec<u8> = (0..n).map(|j| t[(s / 3u64.pow(j) % 3) as usize]).collect();
            follow_case(&x, w, o, (s as usize + 2 * o) % w, i, true)
        })
    }

    //@ bound: generated inputs of up to 200 bytes, windows of up to 60 bytes
    //@ rule: generated from the seed: runs, periods, Fibonacci and ruler words, edited copies, random text; window, order limit (to 70) and shift drawn per case
    fn c19_structured_inputs() {
        let cases = if eval::thorough() { 100_000u64 } else { 12_000 };
        eval::par(cases, |i| {
            let mut r = eval::Rng(i ^ eval::seed() << 32);
            let n = 10 + r.below(190) as usize;
            let x = structured(i, n);
            let w = 1 + r.below(60) as usize;
            let o = [0usize, 1, 2, 3, 4, 5, 7, 20, 33, 70][r.below(10) as usize];
            follow_case(&x, w, o, r.below(w as u64) as usize, i, true)
        })
    }

    //@ bound: generated inputs of 2500 to 4000 bytes, windows of 900 to 1500 bytes
    //@ rule: generated from the seed, with runs longer than the occurrence cap (1000) that start, end and leave the window
    fn c19_counts_at_the_cap() {
        let cases = if eval::thorough() { 800u64 } else { 96 };
        eval::par(cases, |i| {
            let mut r = eval::Rng(i ^ eval::seed() << 32 ^ 77);
            let n = 2500 + r.below(1500) as usize;
            let w = 900 + r.below(600) as usize;
            let (a, b) = PAIRS[i as usize % PAIRS.len()];
            let mut x = Vec::new();
            while x.len() < n {
                let l = [1u64, 2, 998, 999, 1000, 1001, 1002, 1 + r.below(1400)][r.below(8) as usize];
                x.extend((0..l).map(|_| a));
                x.extend((0..1 + r.below(3)).map(|_| if i % 2 == 0 { b } else { b ^ 1 }));
                if i % 3 == 0 { x.extend(structured(i, 30)); }
            }
            x.truncate(n);
            follow_case(&x, w, (i % 4) as usize, r.below(w as u64) as usize, i, false)
        })
    }

    //@ bound: generated inputs of 65600 to 68000 bytes
    //@ rule: generated from the seed: runs longer than 2^16 bytes and repeats further than 2^16 bytes apart
    fn c19_beyond_16_bits() {
        let cases = if eval::thorough() { 64u64 } else { 8 };
        eval::par(cases, |i| {
            let mut r = eval::Rng(i ^ eval::seed() << 32 ^ 78);
            let x = beyond_16_bits(i);
            { let w = x.len() - 1 - r.below(400) as usize; follow_case(&x, w, (i % 3) as usize, r.below(w as u64) as usize, i, false) }
        })
    }

    //@ bound: generated inputs of up to 25000 bytes, windows of up to 12000 bytes
    //@ rule: generated from the seed: random bytes (all values, or few), so that records fill the pool to the last one; windows of 2 to 12000 bytes
    fn c19_full_windows() {
        let cases = if eval::thorough() { 1000u64 } else { 64 };
        eval::par(cases, |i| {
            let mut r = eval::Rng(i ^ eval::seed() << 32 ^ 79);
            let most = [3u64, 20, 150, 1000, 2000, 4000, 8000, 12000][i as usize % 8];
            let w = (most - r.below(most / 3 + 1)) as usize;
            let n = 2 * w + r.below(w as u64) as usize % 1000 + 8;
            let values = [256u64, 250, 16, 2][i as usize / 8 % 4];
            let x: Vec<u8> = (0..n).map(|_| r.below(values) as u8).collect();
            let o = if values == 2 { 32 } else { 2 + (i / 32 % 6) as usize };
            follow_case(&x, w, o, r.below(w as u64) as usize, i, false)
        })
    }
}
