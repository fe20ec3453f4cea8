//! C18: the three history sources against the definition.
use crate::nd::*;
use crate::ensure;
#[cfg(not(kani))]
use crate::hist::*;
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::tree::TreeHistorySource;
use demixer::history::tree::node::CostTrackers;

#[derive(Clone, Copy, PartialEq)]
pub enum Against { Definition, Model }

/// All sources on one input: each report must be the definition's (short
/// inputs) or the model's (long inputs; the model is checked against the
/// definition on the short ones).
#[cfg(not(kani))]
pub fn compare(x: &[u8], max_order: usize, shift: usize, salt: u64, against: Against,
               run_naive: bool) -> Result<(), String> {
    let luts = luts();
    let n = x.len();
    let mut naive = NaiveHistorySource::new(n, max_order, luts);
    let mut fat = FatMapHistorySource::new(n, max_order, luts);
    let mut tree = TreeHistorySource::new_special(n, max_order, shift, luts);
    let mut c = ctx_of(max_order);
    let mut m = Model::new(n, max_order, luts);
    for (p, &byte) in x.iter().enumerate() {
        if run_naive { naive.start_new_byte(); }
        fat.start_new_byte();
        tree.start_new_byte();
        m.start_new_byte();
        for k in (0..8).rev() {
            let what = || format!("input {} order limit {} shift {} byte {} bit {}",
                                  shown(&x[..p + 1]), max_order, shift, p, k);
            let by_model = m.report(k);
            let want = if against == Against::Definition {
                let d = definition(x, p, k, max_order, |q, k, o| some_costs(q, k, o, salt), luts);
                ensure!(d == by_model, "{}: SPECIFICATION: model {} definition {}", what(), render(&by_model), render(&d));
                d
            } else { by_model };
            gather(&fat, &mut c);
            ensure!(c.items() == &want[..], "{}: hash map reports {} instead of {}", what(), render(c.items()), render(&want));
            gather(&tree, &mut c);
            ensure!(c.items() == &want[..], "{}: tree reports {} instead of {}", what(), render(c.items()), render(&want));
            let costs: Vec<_> = want.iter().enumerate().filter(|(_, s)| s.is_for_node())
                .map(|(o, _)| some_costs(p, k, o, salt)).collect();
            let b = bit_at(byte, k);
            if run_naive {
                let mut plain = Vec::new();
                for s in want.iter() {
                    let mut s = s.clone();
                    s.neutralize_cost_trackers();
                    plain.push(s);
                }
                // the brute-force source keeps no costs
                let plain = if against == Against::Definition {
                    definition(x, p, k, max_order, |_, _, _| CostTrackers::DEFAULT, luts)
                } else { plain };
                gather(&naive, &mut c);
                let mut got = Vec::new();
                for s in c.items() {
                    let mut s = s.clone();
                    if against == Against::Model { s.neutralize_cost_trackers(); }
                    got.push(s);
                }
                ensure!(got == plain, "{}: brute force reports {} instead of {}", what(), render(&got), render(&plain));
                let neutral = vec![CostTrackers::DEFAULT; costs.len()];
                naive.process_input_bit(b, &neutral);
            }
            fat.process_input_bit(b, &costs);
            tree.process_input_bit(b, &costs);
            m.process(b, k, &costs);
        }
    }
    Ok(())
}

#[cfg(not(kani))]
pub fn compare_case(x: &[u8], max_order: usize, shift: usize, salt: u64, against: Against,
                    run_naive: bool) -> Result<(), String> {
    match std::panic::catch_unwind(|| compare(x, max_order, shift, salt, against, run_naive)) {
        Ok(r) => r,
        Err(e) => Err(format!("input {} order limit {} shift {}: panicked: {}",
                              shown(x), max_order, shift, eval::message(&e))),
    }
}

#[cfg(not(kani))]
pub const PAIRS: [(u8, u8); 6] = [(97, 98), (0, 255), (0, 128), (32, 33), (31, 32), (215, 15)];

harnesses! {
}

evals! {
    //@@ of: history::naive::NaiveHistorySource::{new,start_new_byte,gather_history_states,process_input_bit}, history::fat_map::FatMapHistorySource::{new,compute_hash,start_new_byte,gather_history_states,process_input_bit}, history::tree::TreeHistorySource::{new_special,start_new_byte,gather_history_states,process_input_bit}, history::tree::Tree::{start_new_byte,extend,gather_states,split_edge,setup_split_edge,split_degenerate_root_edge}, history::tree::context::Context::descend, history::tree::context::ActiveContexts::{shift,keep_only}
    //@ bound: all inputs of 12 bytes over 2 symbols (13 in the thorough tier)
    //@ rule: every string over two symbols, for each of six pairs of symbols and order limits 0 to 4
    fn c18_all_short_binary() {
        let n = if eval::thorough() { 13u64 } else { 12 };
        let strings = 1u64 << n;
        eval::par(strings * 6 * 5, |i| {
            let s = i % strings;
            let (a, b) = PAIRS[(i / strings % 6) as usize];
            let o = (i / strings / 6) as usize;
            let x: Vec<u8> = (0..n).map(|j| if s >> j & 1 == 0 { a } else { b }).collect();
            compare_case(&x, o, (s as usize + o) % n as usize, i, Against::Definition, true)
        })
    }

    //@ bound: all inputs of 8 bytes over 3 symbols (9 in the thorough tier)
    //@ rule: every string over three symbols, for each of three triples and order limits 0 to 4
    fn c18_all_short_ternary() {
        let n = if eval::thorough() { 9u32 } else { 8 };
        let triples = [[97u8, 98, 99], [0, 128, 255], [96, 97, 32]];
        let strings = 3u64.pow(n);
        eval::par(strings * 3 * 5, |i| {
            let s = i % strings;
            let t = triples[(i / strings % 3) as usize];
            let o = (i / strings / 3) as usize;
            let x: Vec<u8> = (0..n).map(|j| t[(s / 3u64.pow(j) % 3) as usize]).collect();
            compare_case(&x, o, (s as usize + o) % n as usize, i, Against::Definition, true)
        })
    }

    //@ bound: one input of 10 bytes per pair of symbols
    //@ rule: every ordered pair of byte values, in a fixed pattern in which every context of order 0 and 1 sees both symbols
    fn c18_all_symbol_pairs() {
        let pattern = [0usize, 1, 0, 0, 1, 1, 0, 1, 0, 0];
        eval::par(1 << 16, |i| {
            let ab = [i as u8, (i >> 8) as u8];
            let x: Vec<u8> = pattern.iter().map(|&j| ab[j]).collect();
            compare_case(&x, 2, (i % 10) as usize, i, Against::Definition, i % 8 == 0)
        })
    }

    //@ bound: generated inputs of up to 250 bytes
    //@ rule: generated from the seed: runs, periods, Fibonacci and ruler words, edited copies, random text; order limit to 70
    fn c18_structured_inputs() {
        let cases = if eval::thorough() { 30_000u64 } else { 6_000 };
        eval::par(cases, |i| {
            let mut r = eval::Rng(i ^ eval::seed() << 32);
            let n = 10 + r.below(if i % 4 == 0 { 240 } else { 80 }) as usize;
            let x = structured(i, n);
            let o = [0usize, 1, 2, 3, 4, 5, 7, 20, 33, 70][r.below(10) as usize];
            compare_case(&x, o, r.below(n as u64) as usize, i, Against::Model, true)
        })
    }

    //@ bound: generated inputs of 1500 to 4000 bytes
    //@ rule: generated from the seed, with runs around the occurrence cap (1000) before the first opposite bit
    fn c18_counts_at_the_cap() {
        let cases = if eval::thorough() { 600u64 } else { 64 };
        eval::par(cases, |i| {
            let mut r = eval::Rng(i ^ eval::seed() << 32 ^ 77);
            let n = 1500 + r.below(2500) as usize;
            let (a, b) = PAIRS[i as usize % PAIRS.len()];
            let mut x = Vec::new();
            while x.len() < n {
                let l = [1u64, 2, 998, 999, 1000, 1001, 1002, 1 + r.below(1400)][r.below(8) as usize];
                x.extend((0..l).map(|_| a));
                x.extend((0..1 + r.below(3)).map(|_| if i % 2 == 0 { b } else { b ^ 1 }));
                if i % 3 == 0 { x.extend(structured(i, 30)); }
            }
            x.truncate(n);
            compare_case(&x, (i % 4) as usize, r.below(n as u64) as usize, i, Against::Model, false)
        })
    }

    //@ bound: generated inputs of 65600 to 68000 bytes
    //@ rule: generated from the seed: runs longer than 2^16 bytes and repeats further than 2^16 bytes apart
    fn c18_beyond_16_bits() {
        let cases = if eval::thorough() { 64u64 } else { 8 };
        eval::par(cases, |i| {
            let mut r = eval::Rng(i ^ eval::seed() << 32 ^ 78);
            let x = beyond_16_bits(i);
            compare_case(&x, (i % 3) as usize, r.below(x.len() as u64) as usize, i, Against::Model, false)
        })
    }
}
