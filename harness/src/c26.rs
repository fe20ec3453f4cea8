//! C26: prediction statistics.
use crate::nd::*;
use crate::common::*;
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::*;
use demixer::fixed_point::types::*;
use demixer::history::{CollectedContextStates, ContextState};
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::node::CostTrackers;
use demixer::lut::LookUpTables;
use demixer::lut::log2::Log2Lut;
use demixer::predictor::stats::{PredictionStatistics, PredictionStatisticsType};
use demixer::util::last_bytes::LastBytesCache;

const MAX_ORDER: usize = 5;
const OCC: usize = 5 * (MAX_ORDER + 1);

fn q(raw: i64) -> Log2Q { Log2Q::new_unchecked(raw) }

fn edge(n: u16, b: Bit) -> ContextState {
    ContextState::ForEdge { last_occurrence_distance: 1, occurrence_count: n, repeated_bit: b }
}
fn node(n: u16) -> ContextState {
    ContextState::ForNode {
        last_occurrence_distance: 1,
        probability_estimator: DeceleratingEstimator::verif_from_raw((1 << 31) | n as u32),
        recent_bits: RecentBitsHistory::new_unchecked(2), bits_runs: BitsRunsTracker::NEW,
        cost_trackers: CostTrackers::DEFAULT,
    }
}

/// `n` costs (the type is a plain 64-bit number without `Copy`).
fn costs<const N: usize>(raw: [i64; N]) -> Vec<Log2Q> {
    let raw = std::mem::ManuallyDrop::new(raw);
    let a: [Log2Q; N] = unsafe { std::mem::transmute_copy(&*raw) };
    Vec::from(a)
}

/// Every scalar and one arbitrary entry of each per-class table (the proof
/// holds for every choice of `k`), for frame conditions.
#[derive(Clone, Copy, PartialEq)]
struct View { bytes: u64, contexts: u64, count: usize, cost: i64, occ: u64, current: i64, total: i64 }
fn view(s: &PredictionStatistics, k: usize) -> View {
    let (bytes, contexts, counts, costs, _, _, current, total, occ) = s.verif_parts();
    View { bytes, contexts, count: counts[k], cost: costs[k].raw(), occ: occ[k],
           current: current.raw(), total: total.raw() }
}

/// Callee contract of `estimate_cost` (C04): a cost depending on probability
/// and bit only; here injective in both, so that no other use is confused
/// with it.
#[cfg(kani)]
pub fn estimate_cost_contract(p: &FinalProbability, bit: Bit, _: &Log2Lut) -> Log2D {
    Log2D::new_unchecked((p.raw() * 2 + bit.is_1() as u32) as i32)
}

fn any_stats<'a>(luts: &'a LookUpTables, i: usize) -> PredictionStatistics<'a> {
    const BIG: i64 = 1 << 60;
    const N: u64 = 1 << 60;
    // the class that is touched holds anything
    let mut counts = [3usize; 25];
    let mut cs = [4i64; 25];
    let mut occ = [5u64; OCC];
    counts[i] = any_in(0usize, N as usize);
    cs[i] = any_in(0, BIG);
    occ[i] = any_in(0, N);
    PredictionStatistics::verif_from_parts(
        luts, any_in(0, N), any_in(0, N), Vec::from(counts), costs(cs),
        Vec::from([7usize; 256]), costs([8i64; 256]),
        q(any_in(0, BIG)), q(any_in(0, BIG)), Vec::from(occ))
}

/// One bit with `n` contexts, of which any may be one-valued.
fn on_next_bit(n: usize) {
    let raw: u32 = any_in(1, (1 << 23) - 1);
    let luts = some_luts();
    let mut ctx = CollectedContextStates::new(MAX_ORDER);
    let mut edges = 0;
    let mut occ = 0;
    let mut i = 0;
    while i < n {
        let c: u16 = any_in(1, 1000);
        occ = c as u64;
        if any() { edges += 1; ctx.push(edge(c, any_bit())); } else { ctx.push(node(c)); }
        i += 1;
    }
    // class: order of the longest context and number of one-valued ones
    let class = if n == 0 { 0 } else { (if n - 1 < 4 { n - 1 } else { 4 }) * 5 + (if edges < 4 { edges } else { 4 }) };
    let mut s = any_stats(luts, class);
    let k: usize = any_in(0, 24);
    let old = view(&s, k);
    let b = any_bit();
    let p = FinalProbability::new(raw, 23);
    let cost = p.estimate_cost(b, luts.log2_lut()).raw() as i64;
    reach!();
    reach!(edges == n, "one-valued contexts");
    s.on_next_bit(b, &ctx, p);
    let new = view(&s, k);
    let mut want = old;
    want.contexts += n as u64;
    if n > 0 {
        want.total += cost;
        want.current += cost;
        if k == class {
            want.cost += cost;
            want.count += 1;
            want.occ += occ;
        }
    }
    assert!(new.total == want.total, "on_next_bit: total cost");
    assert!(new.current == want.current, "on_next_bit: cost of the byte");
    assert!(new.contexts == want.contexts, "on_next_bit: number of contexts");
    assert!(new == want, "on_next_bit: exactly one class is charged");
    let (_, _, _, _, sc, ss, _, _, _) = s.verif_parts();
    let k: usize = any_in(0, 255);
    assert!(sc[k] == 7 && ss[k].raw() == 8, "on_next_bit: no symbol is charged");
}

/// A state with counters of all sizes.
#[cfg(not(kani))]
fn printed_state<'a>(luts: &'a LookUpTables, case: u64) -> (PredictionStatistics<'a>, ()) {
    let mut r = eval::Rng(case);
    let mut num = |max: u32| { let b = r.below(max as u64); r.next() >> (63 - b) };
    let bytes = 1 + num(40);
    let contexts = num(45);
    let counts: Vec<usize> = (0..25).map(|_| num(33) as usize).collect();
    let costs: Vec<Log2Q> = (0..25).map(|_| q(num(45) as i64)).collect();
    let sc: Vec<usize> = (0..256).map(|_| num(33) as usize).collect();
    let ss: Vec<Log2Q> = (0..256).map(|_| q(num(45) as i64)).collect();
    let occ: Vec<u64> = (0..45).map(|_| num(40)).collect();
    (PredictionStatistics::verif_from_parts(luts, bytes, contexts, counts, costs, sc, ss, q(num(30) as i64), q(num(48) as i64), occ), ())
}

harnesses! {
    //@@ of: predictor::stats::PredictionStatistics::on_next_bit
    #[kani::unwind(9)]
    #[kani::stub(demixer::coding::FinalProbability::estimate_cost, estimate_cost_contract)]
    fn c26_on_next_bit_0() { on_next_bit(0) }
    #[kani::unwind(9)]
    #[kani::stub(demixer::coding::FinalProbability::estimate_cost, estimate_cost_contract)]
    fn c26_on_next_bit_1() { on_next_bit(1) }
    #[kani::unwind(9)]
    #[kani::stub(demixer::coding::FinalProbability::estimate_cost, estimate_cost_contract)]
    fn c26_on_next_bit_2() { on_next_bit(2) }
    #[kani::unwind(9)]
    #[kani::stub(demixer::coding::FinalProbability::estimate_cost, estimate_cost_contract)]
    fn c26_on_next_bit_3() { on_next_bit(3) }
    //@ thorough
    #[kani::unwind(9)]
    #[kani::stub(demixer::coding::FinalProbability::estimate_cost, estimate_cost_contract)]
    fn c26_on_next_bit_5() { on_next_bit(5) }
    #[kani::unwind(9)]
    #[kani::stub(demixer::coding::FinalProbability::estimate_cost, estimate_cost_contract)]
    fn c26_on_next_bit_4() { on_next_bit(4) }
    //@ thorough
    #[kani::unwind(9)]
    #[kani::stub(demixer::coding::FinalProbability::estimate_cost, estimate_cost_contract)]
    fn c26_on_next_bit_6() { on_next_bit(6) }
    //@@ of: predictor::stats::PredictionStatistics::start_new_byte
    #[kani::solver(kissat)]
    #[kani::unwind(9)]
    fn c26_start_new_byte_symbols() {
        let bytes: u32 = any();
        let cache = LastBytesCache::verif_from_parts(7, bytes << 8);
        let sym = (bytes & 255) as usize;
        let total_bytes: u64 = any_in(0, 1 << 60);
        let cur: i64 = any_in(0, 1 << 60);
        let (n0, c0): (usize, i64) = (any_in(0usize, 1 << 60), any_in(0, 1 << 60));
        let sc: Box<[usize]> = Box::new([n0; 256]);
        let ss: Box<[Log2Q]> = unsafe { Box::from_raw(Box::into_raw(Box::new([c0; 256])) as *mut [Log2Q; 256]) };
        let mut s = PredictionStatistics::verif_from_parts(
            some_luts(), total_bytes, any(), vec![], vec![], sc.into_vec(), ss.into_vec(),
            q(cur), q(any()), vec![]);
        reach!();
        s.start_new_byte(&cache);
        let (_, _, _, _, sc, ss, _, _, _) = s.verif_parts();
        // the finished byte is counted under its own value, with its cost
        let (want_n, want_c) = if total_bytes > 0 { (n0 + 1, c0 + cur) } else { (n0, c0) };
        assert!(sc[sym] == want_n, "start_new_byte: finished byte counted once under its value");
        assert!(ss[sym].raw() == want_c, "start_new_byte: finished byte charged to its value");
        let k: usize = any_in(0, 255);
        assert!(k == sym || sc[k] == n0 && ss[k].raw() == c0, "start_new_byte: other values untouched");
    }
    #[kani::unwind(9)]
    fn c26_start_new_byte_totals() {
        let sym: u8 = any_in(0, 3);
        let cache = LastBytesCache::verif_from_parts(7, (sym as u32) << 8);
        let total_bytes: u64 = any_in(0, 1 << 60);
        let cur: i64 = any_in(0, 1 << 60);
        let mut s = PredictionStatistics::verif_from_parts(
            some_luts(), total_bytes, any(), any_vec(25), any_vec(25), vec![3; 4], costs([5; 4]),
            q(cur), q(any()), any_vec(OCC));
        let c: usize = any_in(0, 24);
        let old = view(&s, c);
        reach!();
        s.start_new_byte(&cache);
        let new = view(&s, c);
        assert!(new == View { bytes: total_bytes + 1, current: 0, ..old }, "start_new_byte: one more byte, nothing else");
    }
    #[kani::unwind(258)]
    #[kani::should_panic]
    fn c26_start_inside_byte() {
        let luts = some_luts();
        let i: i32 = any_in(-1, 6);
        let cache = LastBytesCache::verif_from_parts(i, any());
        let mut s = PredictionStatistics::new(MAX_ORDER, luts);
        rejects(|| s.start_new_byte(&cache));
    }
    //@@ of: predictor::stats::PredictionStatistics::new
    #[kani::unwind(258)]
    fn c26_new() {
        let luts = some_luts();
        let s = PredictionStatistics::new(MAX_ORDER, luts);
        let (bytes, contexts, counts, costs, sc, ss, _, total, occ) = s.verif_parts();
        reach!();
        assert!(bytes == 0 && contexts == 0 && total.raw() == 0, "new: nothing counted");
        assert!(counts.len() == 25 && costs.len() == 25 && sc.len() == 256 && ss.len() == 256 && occ.len() == OCC, "new: sizes");
        let k: usize = any_in(0, 255);
        let mut zero = sc[k] == 0 && ss[k].raw() == 0;
        if k < 25 { zero &= counts[k] == 0 && costs[k].raw() == 0; }
        if k < OCC { zero &= occ[k] == 0; }
        assert!(zero, "new: nothing counted");
    }
    #[kani::unwind(9)]
    #[kani::should_panic]
    #[kani::stub(demixer::coding::FinalProbability::estimate_cost, estimate_cost_contract)]
    fn c26_total_never_wraps() {
        // a sum beyond 63 bits stops instead of wrapping
        let luts = some_luts();
        let t: i64 = any();
        let p = FinalProbability::new(any_in(1, (1 << 23) - 1), 23);
        let cost = p.estimate_cost(Bit::One, luts.log2_lut()).raw() as i64;
        assume(t > i64::MAX - cost);
        let mut s = PredictionStatistics::verif_from_parts(
            luts, 1, 1, vec![0; 25], costs([0; 25]), vec![0; 256], costs([0; 256]), q(0), q(t), vec![0; OCC]);
        let mut ctx = CollectedContextStates::new(MAX_ORDER);
        ctx.push(node(1));
        rejects(|| s.on_next_bit(Bit::One, &ctx, p));
    }
}

evals! {
    //@ of: predictor::stats::PredictionStatistics::{new,start_new_byte,on_next_bit}
    //@ bound: 400 random histories of 600 bytes each
    //@ rule: random bytes, contexts and probabilities; sums recomputed independently after every byte
    fn c26_histories() {
        let luts = LookUpTables::new();
        let seed = eval::seed();
        eval::par(400, |case| {
            let mut r = eval::Rng(seed.wrapping_mul(31337).wrapping_add(case));
            let order = r.below(9) as usize;
            let mut s = PredictionStatistics::new(order, &luts);
            let mut cache = LastBytesCache::new();
            let (mut total, mut bits, mut ctxs) = (0i64, 0usize, 0u64);
            let mut sym = [(0usize, 0i64); 256];
            let mut class = [(0usize, 0i64, 0u64); 25];
            for n in 0..600u64 {
                cache.start_new_byte();
                s.start_new_byte(&cache);
                {
                    let (b, c, counts, costs, sc, ss, cur, t, occ) = s.verif_parts();
                    ensure!(b == n + 1 && c == ctxs && t.raw() == total && cur.raw() == 0, "byte {}: totals {} {} {}", n, b, c, t.raw());
                    ensure!(costs.iter().map(|x| x.raw()).sum::<i64>() == total, "byte {}: classes do not add up", n);
                    ensure!(ss.iter().map(|x| x.raw()).sum::<i64>() == total, "byte {}: symbols do not add up", n);
                    ensure!(counts.iter().sum::<usize>() == bits && sc.iter().sum::<usize>() as u64 == n, "byte {}: counts do not add up", n);
                    for k in 0..256 { ensure!((sc[k], ss[k].raw()) == sym[k], "byte {}: symbol {}", n, k); }
                    for k in 0..25 {
                        ensure!((counts[k], costs[k].raw()) == (class[k].0, class[k].1), "byte {}: class {}", n, k);
                        if k < occ.len() { ensure!(occ[k] == class[k].2, "byte {}: occurrences of class {}", n, k); }
                    }
                }
                let (mut value, mut cost) = (0usize, 0i64);
                for _ in 0..8 {
                    let m = r.below(order as u64 + 2) as usize;
                    let mut c = CollectedContextStates::new(order);
                    let (mut e, mut occ) = (0, 0);
                    for _ in 0..m {
                        occ = 1 + r.below(1000) as u16;
                        if r.below(2) == 0 { c.push(edge(occ, Bit::One)); e += 1 } else { c.push(node(occ)) }
                    }
                    let raw = match r.below(4) { 0 => 1, 1 => (1 << 23) - 1, _ => 1 + r.below((1 << 23) - 1) as u32 };
                    let p = FinalProbability::new(raw, 23);
                    let b: Bit = (r.below(2) == 1).into();
                    let w = p.estimate_cost(b, luts.log2_lut()).raw() as i64;
                    s.on_next_bit(b, &c, p);
                    cache.on_next_bit(b);
                    value = value * 2 + b.is_1() as usize;
                    ctxs += m as u64;
                    if m > 0 {
                        let k = (m - 1).min(4) * 5 + 4.min(e);
                        total += w; cost += w; bits += 1;
                        class[k].0 += 1; class[k].1 += w; class[k].2 += occ as u64;
                    }
                }
                sym[value].0 += 1;
                sym[value].1 += cost;
            }
            Ok(())
        })
    }
    //@ of: predictor::stats::PredictionStatistics::print_state
    //@ bound: 40 states with random counters, all four reports
    //@ rule: numbers printed by a child process against the counters of the state
    fn c26_print() {
        let luts = LookUpTables::new();
        if let Ok(c) = std::env::var("C26_PRINT") {
            printed_state(&luts, c.parse().unwrap()).0.print_state(&[
                PredictionStatisticsType::CostsAndOccurrencesPerSymbolValue,
                PredictionStatisticsType::TotalCostUsingLuts,
                PredictionStatisticsType::AverageContextLength,
                PredictionStatisticsType::CostsAndOccurrencesPerContextType]);
            std::process::exit(0);
        }
        let seed = eval::seed();
        eval::par(40, |case| {
            let case = seed.wrapping_mul(7919).wrapping_add(case);
            let out = std::process::Command::new(std::env::current_exe().unwrap())
                .args(&["eval", "c26_print"]).env("C26_PRINT", case.to_string())
                .output().map_err(|e| e.to_string())?;
            ensure!(out.status.success(), "state {}: print_state failed", case);
            let text = String::from_utf8_lossy(&out.stdout).into_owned();
            let (s, _) = printed_state(&luts, case);
            let (bytes, contexts, counts, costs, sc, ss, _, total, occ) = s.verif_parts();
            let cost = |x: &Log2Q| x.raw() as f64 / 2048.0 / 8.0;
            let near = |t: &str, want: f64, half: f64| match t.trim_end_matches(',').parse::<f64>() {
                Ok(v) => v == want || v.is_nan() && want.is_nan() || (v - want).abs() <= half + want.abs() * 1e-12,
                Err(_) => false,
            };
            let last = |l: &str, n: usize| l.split_whitespace().rev().nth(n).unwrap_or("").to_string();
            let (mut symbols, mut classes, mut totals, mut lengths) = (0, 0, 0, 0);
            for line in text.lines() {
                if line.contains("otal cost") {
                    totals += 1;
                    ensure!(near(&last(line, 1), cost(total), 0.00501), "state {}: total {} printed as {}", case, total.raw(), line);
                } else if line.contains("verage context length") {
                    lengths += 1;
                    ensure!(near(&last(line, 1), contexts as f64 / (bytes * 8) as f64, 0.000501), "state {}: {} contexts, {} bytes: {}", case, contexts, bytes, line);
                } else if line.starts_with("order ") {
                    let t: Vec<&str> = line.split(|c: char| c == ' ' || c == ',').filter(|t| !t.is_empty()).collect();
                    let num = |name: &str| t.iter().position(|x| *x == name).and_then(|i| t.get(i + 1)).map(|x| x.to_string()).unwrap_or_default();
                    let k = num("order").parse::<usize>().unwrap_or(99) * 5 + num("unary").parse::<usize>().unwrap_or(99);
                    ensure!(k == classes && k < 25, "state {}: class {} printed as {}", case, classes, line);
                    classes += 1;
                    ensure!(near(&num("count"), counts[k] as f64 / 8.0, 0.00501) && near(&num("cost"), cost(&costs[k]), 0.00501)
                            && near(&num("occur"), occ[k] as f64 / counts[k] as f64, 0.000501), "state {}: class {}: {}", case, k, line);
                } else if line.contains(" | ") {
                    let mut rest = line.trim_start();
                    // cells are `code char count cost`; the character may be anything
                    for _ in 0..4 {
                        let code = match u8::from_str_radix(rest.get(..2).unwrap_or("").trim(), 16)
                            .or_else(|_| u8::from_str_radix(rest.get(..1).unwrap_or(""), 16)) {
                            Ok(c) => c as usize,
                            Err(_) => return Err(format!("state {}: no symbol in {}", case, line)),
                        };
                        let skip = if rest.get(1..2) == Some(" ") { 3 } else { 4 };
                        let t = rest.get(skip..).unwrap_or("");
                        let mut it = t.split_whitespace();
                        let (n, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
                        ensure!(n.parse::<usize>() == Ok(sc[code]) && near(c, cost(&ss[code]), 0.00501), "state {}: symbol {}: {}", case, code, line);
                        symbols += 1;
                        rest = match t.find(" | ") { Some(i) => t[i + 3..].trim_start(), None => "" };
                    }
                }
            }
            ensure!(symbols >= 128 && (classes, totals, lengths) == (25, 1, 1), "state {}: printed {} symbols, {} classes, {} totals", case, symbols, classes, totals);
            Ok(())
        })
    }
}
