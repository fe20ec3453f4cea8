//! C14: the input window.  Proved for every window in Verus
//! (verus/window.py); the evaluations here give failing inputs and cover
//! for_each_suffix.
use crate::nd::*;
use crate::ensure;
use std::collections::VecDeque;
use std::sync::Mutex;
use demixer::history::window::{InputWindow, WindowIndex, get_bit};

fn bit(b: u8, k: usize) -> bool { b >> k & 1 == 1 }

/// Compares the window with the sequence it stands for; `first` is the
/// position (of max) where that sequence starts.
fn check(w: &InputWindow, s: &VecDeque<u8>, first: usize, max: usize, pairs: bool) -> Result<(), String> {
    let n = s.len();
    let at = |i: usize| WindowIndex::new((first + i) % max);
    ensure!(w.size() == n && w.max_size() == max, "size {} of {} instead of {} of {}", w.size(), w.max_size(), n, max);
    ensure!(w.start() == at(0), "start is {}, not {}", w.start(), at(0));
    if n > 0 { ensure!(w.cursor() == at(n - 1), "cursor is {}, not {}", w.cursor(), at(n - 1)); }
    for i in 0..n {
        ensure!(w[at(i)] == s[i], "byte {} is {} instead of {}", i, w[at(i)], s[i]);
        for k in 0..8 {
            ensure!(w.get_bit(at(i), k).is_1() == bit(s[i], k), "bit {} of byte {}", k, i);
            ensure!(get_bit(s[i], k).is_1() == bit(s[i], k), "get_bit({}, {})", s[i], k);
        }
    }
    let seen: Mutex<Vec<usize>> = Mutex::new(vec![]);
    w.for_each_suffix(|i| seen.lock().unwrap().push(i.raw()));
    let seen = seen.into_inner().unwrap();
    ensure!(seen == (0..n).map(|i| at(i).raw()).collect::<Vec<_>>(), "for_each_suffix visits {:?}", seen);
    if !pairs { return Ok(()) }
    for i in 0..n {
        for j in 0..n {
            ensure!(w.index_is_smaller(at(i), at(j)) == (i < j), "is_smaller({}, {})", i, j);
            ensure!(w.index_is_smaller_or_equal(at(i), at(j)) == (i <= j), "is_smaller_or_equal({}, {})", i, j);
            if j <= i {
                ensure!(w.index_diff(at(i), at(j)) == i - j, "diff({}, {}) = {}", i, j, w.index_diff(at(i), at(j)));
                ensure!(w.index_subtract(at(i), i - j) == at(j), "subtract({}, {})", i, i - j);
                ensure!(w.index_add(at(j), i - j) == at(i), "add({}, {})", j, i - j);
            }
            if i + 1 == j {
                ensure!(w.index_increment(at(i)) == at(j) && w.index_decrement(at(j)) == at(i), "increment/decrement at {}", i);
            }
            let room = n - i.max(j);
            for len in 0..room + 1 {
                let same = (0..len).all(|k| s[i + k] == s[j + k]);
                for b in 0..8 {
                    if len == room && b < 7 { continue }
                    let want = same && (b + 1..8).all(|k| bit(s[i + len], k) == bit(s[j + len], k));
                    let got = w.compare_for_equal_prefix(at(i), at(j), b, len);
                    ensure!(got == want, "prefix comparison of {} and {} with {} bytes and bits above {}: {}, window {:?}", i, j, len, b, got, s);
                    if len < room {
                        ensure!(w.bytes_differ_on(at(i + len), at(j + len), b) == (bit(s[i + len], b) != bit(s[j + len], b)), "bytes_differ_on");
                    }
                }
            }
        }
    }
    Ok(())
}

fn run(max: usize, shift: usize, steps: usize, r: &mut eval::Rng, pairs: bool) -> Result<(), String> {
    let mut w = InputWindow::new(max, shift);
    let mut s = VecDeque::new();
    let mut first = shift;
    let flavour = r.below(4);
    check(&w, &s, first, max, pairs)?;
    for step in 0..steps {
        let append = s.len() < max && (s.is_empty() || r.below(if flavour == 0 { 2 } else { 8 }) != 0);
        let what;
        if append {
            w.advance_cursor();
            s.push_back(0);
            let n = s.len() - 1;
            ensure!(w[w.cursor()] == 0, "an appended byte is not zero");
            let b = match r.below(4) { 0 => 0, 1 => 0x80 >> r.below(8) as u8, 2 => s[r.below(n as u64 + 1) as usize], _ => r.next() as u8 };
            if r.below(2) == 0 {
                w.set_byte_at_cursor(b);
                s[n] = b;
            } else {
                for k in (0..8).rev() {
                    w.set_bit_at_cursor(bit(b, k).into(), k);
                    s[n] = s[n] & !(1 << k) | (b & 1 << k);
                    ensure!(w[w.cursor()] == s[n], "set_bit_at_cursor({}) gives {} instead of {}", k, w[w.cursor()], s[n]);
                }
                let k = r.below(8) as usize;
                let v = r.below(2) == 0;
                w.set_bit_at_cursor(v.into(), k);
                s[n] = if v { s[n] | 1 << k } else { s[n] & !(1 << k) };
            }
            what = "append";
        } else {
            w.advance_start();
            s.pop_front();
            first = (first + 1) % max;
            what = "drop";
        }
        check(&w, &s, first, max, pairs).map_err(|e| format!("window of {}, shift {}, after {} ({} steps): {}", max, shift, what, step + 1, e))?;
    }
    Ok(())
}

/// Index arithmetic and prefix comparisons far apart: one window holding a
/// periodic text with one odd byte, wrapped around its buffer.
fn far(max: usize, r: &mut eval::Rng, probes: usize) -> Result<(), String> {
    let shift = r.below(max as u64) as usize;
    let mut w = InputWindow::new(max, shift);
    let n = max - r.below(3).min(max as u64 - 1) as usize;
    let period = 1 + r.below(4) as usize;
    let odd = r.below(n as u64) as usize;
    let twist = 1u8 << r.below(8);
    let s: Vec<u8> = (0..n).map(|i| (i % period) as u8 * 37 ^ if i == odd { twist } else { 0 }).collect();
    for &b in &s { w.advance_cursor(); w.set_byte_at_cursor(b); }
    let at = |i: usize| WindowIndex::new((shift + i) % max);
    let near = |r: &mut eval::Rng, top: usize| {
        let t = match r.below(4) {
            0 => (1usize << r.below(18)) + r.below(3) as usize,
            1 => odd + r.below(3) as usize,
            2 => top - r.below(3).min(top as u64) as usize,
            _ => r.below(top as u64 + 1) as usize,
        };
        t.saturating_sub(1).min(top)
    };
    for _ in 0..probes {
        let (i, d) = (near(r, n - 1), near(r, n - 1));
        let j = if r.below(4) == 0 { d } else { (i + period * (1 + d % 3)) % n };
        let room = n - i.max(j);
        // lengths up to the first difference and around it
        let first = (0..room).find(|&k| s[i + k] != s[j + k]);
        let mut lens = vec![near(r, room), near(r, room), room];
        if let Some(f) = first { lens.extend([f, (f + 1).min(room), near(r, room).max(f)]); }
        for len in lens {
            for b in [7usize, 0, r.below(8) as usize] {
                if len == room && b < 7 { continue }
                let want = first.map_or(true, |f| f >= len) && (b + 1..8).all(|k| bit(s[i + len], k) == bit(s[j + len], k));
                let got = w.compare_for_equal_prefix(at(i), at(j), b, len);
                ensure!(got == want, "window of {}, shift {}, text of period {} (byte k is 37 times k mod it) and length {} whose byte {} is changed by {:#x}: prefix comparison of {} and {} with {} bytes and bits above {} gives {}",
                        max, shift, period, n, odd, twist, i, j, len, b, got);
            }
        }
        ensure!(w.index_is_smaller(at(i), at(j)) == (i < j) && w.index_is_smaller_or_equal(at(i), at(j)) == (i <= j), "window of {}, shift {}, size {}: order of {} and {}", max, shift, n, i, j);
        let (lo, hi) = (i.min(j), i.max(j));
        ensure!(w.index_diff(at(hi), at(lo)) == hi - lo && w.index_add(at(lo), hi - lo) == at(hi) && w.index_subtract(at(hi), hi - lo) == at(lo),
                "window of {}, shift {}, size {}: distance of {} and {}", max, shift, n, lo, hi);
        ensure!(w[at(i)] == s[i], "window of {}, shift {}, size {}: byte {}", max, shift, n, i);
    }
    Ok(())
}

harnesses! {}

evals! {
    //@@ of: history::window::{get_bit,WindowIndex::new,WindowIndex::raw,InputWindow::new,InputWindow::start,InputWindow::cursor,InputWindow::size,InputWindow::max_size,InputWindow::advance_start,InputWindow::advance_cursor,InputWindow::check_size_invariants,InputWindow::index_add,InputWindow::index_increment,InputWindow::index_subtract,InputWindow::index_decrement,InputWindow::index_diff,InputWindow::index_is_smaller,InputWindow::index_is_smaller_or_equal,InputWindow::compare_for_equal_prefix,InputWindow::compare_for_equal_prefix_straight,InputWindow::bytes_differ_on,InputWindow::get_bit,InputWindow::set_bit_at_cursor,InputWindow::set_byte_at_cursor,InputWindow::index,InputWindow::for_each_suffix}
    //@ bound: windows of at most 9 bytes at every initial shift, sequences of 40 operations, all index pairs and prefix lengths
    //@ rule: operations and bytes from VERIF_SEED, every state compared with a deque
    fn c14_small() {
        let s = eval::seed();
        eval::par(if eval::thorough() { 60_000 } else { 6_000 }, |i| {
            let mut r = eval::Rng(s.wrapping_mul(7919).wrapping_add(i));
            let max = (i % 9) as usize + 1;
            run(max, (i / 9) as usize % max, 40, &mut r, true)
        })
    }
    //@ bound: windows of up to 5000 bytes, 3 times their size operations (positions and bytes)
    //@ rule: operations and bytes from VERIF_SEED, every state compared with a deque
    fn c14_large() {
        let s = eval::seed();
        eval::par(120, |i| {
            let mut r = eval::Rng(s.wrapping_mul(104729).wrapping_add(i));
            let max = match i % 4 { 0 => 255 + (i / 4) as usize % 4, 1 => 30 + i as usize, 2 => 64, _ => if i < 8 { 2000 } else { 500 } };
            let shift = r.below(max as u64) as usize;
            run(max, shift, 3 * max, &mut r, false)
        })
    }
    //@ bound: full windows of up to 140000 bytes, 400 index pairs each with lengths around powers of two, the room left and the first difference
    //@ rule: periodic texts with one changed byte, from VERIF_SEED
    fn c14_far_apart() {
        let s = eval::seed();
        eval::par(if eval::thorough() { 4_000 } else { 400 }, |i| {
            let mut r = eval::Rng(s.wrapping_mul(15485863).wrapping_add(i));
            let max = match i % 8 { 0 => 66_000 + r.below(74_000) as usize, 1 => 255 + r.below(4) as usize, 2 => 1 + r.below(20) as usize, 3 => 300 + r.below(3000) as usize, 4 => 65_534 + r.below(5) as usize, _ => 200 + r.below(900) as usize };
            far(max, &mut r, 400)
        })
    }
}
