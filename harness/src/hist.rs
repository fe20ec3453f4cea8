//! Specification of the context statistics, from the input alone.
//!
//! `Definition`: the statistics of a context are the fold of the state
//! transition (C17) over its earlier occurrences (no window).
//! `Model`: the same with a sliding window, as the contract of the suffix tree:
//! a context is two-valued while both bits follow occurrences whose start is
//! in the window; its record lives exactly that long; a context in the
//! window without a record has seen one bit value only, and its count is that
//! of the branch it was reached through.
use std::collections::HashMap;
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use demixer::history::tree::{TreeHistorySource, TreeState};
use demixer::history::tree::direction::Direction;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::nodes::NodeIndex;
use demixer::history::window::WindowIndex;
use demixer::lut::LookUpTables;
use crate::nd::eval;

pub fn luts() -> &'static LookUpTables {
    use std::sync::OnceLock;
    static L: OnceLock<usize> = OnceLock::new();
    let p = *L.get_or_init(|| Box::leak(Box::new(LookUpTables::new())) as *const LookUpTables as usize);
    unsafe { &*(p as *const LookUpTables) }
}

pub const MAX: usize = 1000; // ContextState::MAX_OCCURRENCE_COUNT (C17 pins it)

pub fn bit_at(byte: u8, k: usize) -> Bit { (((byte >> k) & 1) == 1).into() }

/// Arbitrary but reproducible cost trackers.
pub fn some_costs(pos: usize, bit: usize, order: usize, salt: u64) -> CostTrackers {
    let mut r = eval::Rng(salt ^ ((pos * 8 + bit) as u64 * 1009 + order as u64));
    let x = r.next();
    CostTrackers::new(CostTracker::new(x as u16), CostTracker::new((x >> 16) as u16))
}

fn distance_of(s: &ContextState, d: usize) -> ContextState {
    let mut s = s.clone();
    match &mut s {
        &mut ContextState::ForEdge { ref mut last_occurrence_distance, .. } => *last_occurrence_distance = d,
        &mut ContextState::ForNode { ref mut last_occurrence_distance, .. } => *last_occurrence_distance = d,
    }
    s
}

/// Same preceding `order` bytes and the same bits above `bit_index`.
fn same_context(x: &[u8], p: usize, q: usize, order: usize, bit_index: usize) -> bool {
    q >= order && p >= order && x[p - order..p] == x[q - order..q]
        && (x[p] ^ x[q]) as u32 >> (bit_index + 1) == 0
}

/// The definition: states of all contexts at position `p`, bit `bit_index`.
pub fn definition<F: Fn(usize, usize, usize) -> CostTrackers>(
    x: &[u8], p: usize, bit_index: usize, max_order: usize, costs: F,
    luts: &LookUpTables) -> Vec<ContextState> {
    let mut out = Vec::new();
    for order in 0..=max_order {
        let mut state: Option<ContextState> = None;
        for q in 0..p {
            if !same_context(x, p, q, order, bit_index) { continue }
            let bit = bit_at(x[q], bit_index);
            state = Some(match state {
                None => ContextState::verif_starting_state(p - q, bit),
                Some(s) => {
                    let c = if s.is_for_node() { Some(costs(q, bit_index, order)) } else { None };
                    s.verif_next_state(p - q, bit, c, luts)
                }
            });
        }
        match state { Some(s) => out.push(s), None => break }
    }
    out
}

type Key = Vec<u8>;
struct Rec { state: ContextState, left: u16, right: u16 }

pub struct Model<'a> {
    pub x: Vec<u8>,
    pub ws: usize,
    window: usize,
    max_order: usize,
    luts: &'a LookUpTables,
    last: HashMap<Key, [Option<usize>; 2]>,
    recs: HashMap<Key, Rec>,
    /// count of the branch each tracked context was reached through
    inc: Vec<usize>,
}

fn key(x: &[u8], p: usize, order: usize, bit_index: usize) -> Key {
    let mut k = x[p - order..p].to_vec();
    let partial = ((256 + x[p] as u32) >> (bit_index + 1)) as u8;
    k.push(partial);
    k
}

impl<'a> Model<'a> {
    pub fn new(window: usize, max_order: usize, luts: &'a LookUpTables) -> Self {
        Model { x: Vec::new(), ws: 0, window, max_order, luts,
                last: HashMap::new(), recs: HashMap::new(), inc: Vec::new() }
    }

    fn p(&self) -> usize { self.x.len() - 1 }
    pub fn degenerate(&self) -> bool { self.recs.is_empty() }
    pub fn records(&self) -> usize { self.recs.len() }
    pub fn has_record(&self, k: &[u8]) -> bool { self.recs.contains_key(k) }

    /// start of the latest earlier occurrence inside the window
    fn latest(&self, order: usize, bit_index: usize) -> Option<usize> {
        let p = self.p();
        if order > p - self.ws.min(p) { return None }
        let l = self.last.get(&key(&self.x, p, order, bit_index))?;
        let m = match (l[0], l[1]) { (Some(a), Some(b)) => a.max(b), (Some(a), None) | (None, Some(a)) => a, _ => return None };
        if m >= self.ws { Some(m) } else { None }
    }

    fn root(&self) -> (u16, u16) {
        for k in (0..8).rev() {
            // the record nearest to the root has only the shared bits above
            let p = self.p().saturating_sub(1);
            if let Some(r) = self.recs.get(&key(&self.x, p, 0, k)) { return (r.left, r.right) }
        }
        unreachable!()
    }

    pub fn start_new_byte(&mut self) {
        if self.x.len() - self.ws == self.window {
            // contexts of the finished byte, one byte longer each
            let p = self.p();
            let ws = self.ws;
            for order in 0..=self.max_order {
                if ws + order > p { break }
                for k in (0..8).rev() {
                    let q = ws + order;
                    let b = bit_at(self.x[q], k).to_u8() as usize;
                    let kk = key(&self.x, q, order, k);
                    let l = self.last[&kk][b];
                    if l == Some(ws) { self.recs.remove(&kk); }
                }
            }
            self.ws += 1;
            let ws = self.ws;
            // tracked contexts whose latest occurrence left the window
            let mut keep = 0;
            if !self.degenerate() {
                while keep < self.inc.len() {
                    let order = keep;
                    let found = (ws..=p).any(|s| s + order < p
                        && self.x[s..=s + order] == self.x[p - order..=p]);
                    if !found { break }
                    keep += 1;
                }
            }
            self.inc.truncate(keep);
        }
        self.x.push(0);
        if !self.degenerate() {
            if self.inc.len() == self.max_order + 1 { self.inc.pop(); }
            let (l, r) = self.root();
            self.inc.insert(0, (l as usize + r as usize).min(MAX));
        }
    }

    pub fn report(&self, bit_index: usize) -> Vec<ContextState> {
        let p = self.p();
        let mut out = Vec::new();
        for order in 0..=self.max_order {
            let s = match self.latest(order, bit_index) { Some(s) => s, None => break };
            let d = p - order - s;
            match self.recs.get(&key(&self.x, p, order, bit_index)) {
                Some(r) => out.push(distance_of(&r.state, d)),
                None => out.push(ContextState::ForEdge {
                    last_occurrence_distance: d,
                    occurrence_count: self.count(order) as u16,
                    repeated_bit: bit_at(self.x[s + order], bit_index),
                }),
            }
        }
        out
    }

    fn count(&self, order: usize) -> usize {
        if self.degenerate() { (self.p() - order - self.ws).min(MAX) } else { self.inc[order] }
    }

    pub fn process(&mut self, bit: Bit, bit_index: usize, costs: &[CostTrackers]) {
        let p = self.p();
        let was_degenerate = self.degenerate();
        let report = self.report(bit_index);
        let mut new_inc = self.inc.clone();
        let b = bit.to_u8() as usize;
        for (order, s) in report.iter().enumerate() {
            let kk = key(&self.x, p, order, bit_index);
            let count = self.count(order);
            if s.is_for_node() {
                let r = self.recs.get_mut(&kk).unwrap();
                new_inc[order] = if b == 0 { r.left } else { r.right } as usize;
                if b == 0 { r.left = (r.left + 1).min(MAX as u16) } else { r.right = (r.right + 1).min(MAX as u16) }
                r.state = r.state.verif_next_state(1, bit, Some(costs[order].clone()), self.luts);
            }
        }
        let mut made = Vec::new();
        for (order, s) in report.iter().enumerate() {
            if let &ContextState::ForEdge { repeated_bit, .. } = s {
                if repeated_bit != bit {
                    let count = self.count(order) as u16;
                    let state = s.verif_next_state(1, bit, None, self.luts);
                    let (left, right) = if b == 0 { (1, count) } else { (count, 1) };
                    made.push((order, Rec { state, left, right }));
                }
            }
        }
        for (order, r) in made {
            let kk = key(&self.x, p, order, bit_index);
            self.recs.insert(kk, r);
        }
        if was_degenerate { new_inc = Vec::new() }
        self.inc = new_inc;
        // occurrences
        for order in 0..=self.max_order {
            if order > p - self.ws { break }
            let kk = key(&self.x, p, order, bit_index);
            self.last.entry(kk).or_insert([None; 2])[b] = Some(p - order);
        }
        if b == 1 { self.x[p] |= 1 << bit_index }
        // contexts that ended
        if !self.degenerate() && !was_degenerate {
            let n = report.iter().enumerate().take_while(|(order, s)| match s {
                &&ContextState::ForEdge { repeated_bit, .. } => repeated_bit == bit,
                &&ContextState::ForNode { .. } => {
                    // tracked while the context plus this bit was seen before
                    let kk = key(&self.x, p, *order, bit_index);
                    let _ = kk;
                    true
                }
            }).count();
            self.inc.truncate(n);
        }
    }
}

pub fn render(v: &[ContextState]) -> String {
    v.iter().map(|s| match s {
        &ContextState::ForEdge { last_occurrence_distance: d, occurrence_count: n, repeated_bit: b } =>
            format!("[{}x{} d{}]", n, b.to_u8(), d),
        &ContextState::ForNode { last_occurrence_distance: d, probability_estimator: ref e, recent_bits: ref r, bits_runs: ref u, ref cost_trackers } =>
            format!("[node d{} est {:?} recent {:b} runs {:?} costs {:?}]", d, e, r.last_7_bits(), u, cost_trackers),
    }).collect::<Vec<_>>().join(" ")
}

pub fn ctx_of(max_order: usize) -> CollectedContextStates { CollectedContextStates::new(max_order) }

pub fn gather<'a, H: HistorySource<'a>>(h: &H, c: &mut CollectedContextStates) {
    c.reset();
    h.gather_history_states(c);
}

/// The structure of the tree against the model: every record has a node with
/// the right depth, text and children, and nothing else is there.
pub fn structure(tree: &TreeHistorySource, m: &Model, shift: usize) -> Result<(), String> {
    let t = &tree.tree;
    // positions: absolute index a lives at (shift + a) mod size
    let size = t.window.max_size();
    let p = m.x.len() - 1; // current, unfinished
    let at = |a: usize| (shift + a) % size;
    ensure!(t.window.size() == p + 1 - m.ws, "window size {}", t.window.size());
    ensure!(t.window.cursor().raw() == at(p), "cursor {} instead of {}", t.window.cursor().raw(), at(p));
    ensure!(t.window.start().raw() == at(m.ws), "start {} instead of {}", t.window.start().raw(), at(m.ws));
    for a in m.ws..=p {
        ensure!(t.window[WindowIndex::new(at(a))] == m.x[a], "byte {} differs", a);
    }
    if m.degenerate() {
        ensure!(t.tree_state() == TreeState::Degenerate, "tree is not empty");
        return Ok(());
    }
    ensure!(t.tree_state() == TreeState::Proper, "tree is empty");
    ensure!(t.nodes().live_nodes_count() == m.records(), "{} nodes instead of {}", t.nodes().live_nodes_count(), m.records());
    // absolute position of a buffer index inside the window
    let abs = |i: usize| -> Option<usize> {
        let a = m.ws + (i + size - at(m.ws)) % size;
        if a <= p { Some(a) } else { None }
    };
    let mut seen = 0;
    let mut leaves = std::collections::HashSet::new();
    let mut stack: Vec<(NodeIndex, Option<(usize, usize, u8)>)> = vec![(t.get_root_node_index(), None)];
    // (node, parent's (depth, text, branch))
    while let Some((n, parent)) = stack.pop() {
        seen += 1;
        ensure!(seen <= m.records(), "more nodes reachable than records");
        let node = &t.nodes()[n];
        ensure!(node.is_valid(), "free slot reachable");
        let text = match abs(node.text_start().raw()) { Some(a) => a, None => return Err(format!("node refers outside of the window")) };
        let (order, k) = (node.depth() / 8, 7 - node.depth() % 8);
        if text + order <= p {
            ensure!(m.has_record(&key(&m.x, text + order, order, k)) || text + order == p,
                    "node at depth {} of text {} has no record", node.depth(), text);
        }
        if let Some((d, _, _)) = parent { ensure!(node.depth() > d, "depth does not grow"); }
        for (b, dir) in [(0u8, Direction::Left), (1, Direction::Right)].iter() {
            let c = node.child(*dir);
            ensure!(c.is_valid(), "invalid child");
            if c.is_node_index() {
                stack.push((c.to_node_index(), Some((node.depth(), text, *b))));
            } else {
                let a = match abs(c.to_window_index().raw()) { Some(a) => a, None => return Err(format!("leaf refers outside of the window")) };
                ensure!(leaves.insert(a), "two leaves for one suffix");
                if a + order < p {
                    ensure!(bit_at(m.x[a + order], k).to_u8() == *b, "leaf {} hangs on the wrong branch", a);
                    ensure!(m.has_record(&key(&m.x, a + order, order, k)), "leaf {} below a node of another context", a);
                }
            }
        }
    }
    ensure!(seen == m.records(), "{} nodes reachable, {} records", seen, m.records());
    // every suffix in the window is reachable: walking down by its bits ends in
    // a leaf that shares its bits and is not older
    for s in m.ws..p {
        let mut n = t.get_root_node_index();
        loop {
            let node = &t.nodes()[n];
            let (order, k) = (node.depth() / 8, 7 - node.depth() % 8);
            if s + order >= p { break }
            let c = node.child(bit_at(m.x[s + order], k).into());
            if c.is_node_index() { n = c.to_node_index(); continue }
            let a = abs(c.to_window_index().raw()).unwrap();
            ensure!(a >= s, "suffix {} ends in the older leaf {}", s, a);
            let len = (p - a).min(order + 1);
            ensure!(m.x[a..a + len] == m.x[s..s + len] || {
                // the last, partial byte is compared bitwise
                m.x[a..a + len - 1] == m.x[s..s + len - 1]
                    && (m.x[a + len - 1] ^ m.x[s + len - 1]) as u32 >> k == 0
            }, "suffix {} ends in the leaf {} of another text", s, a);
            break;
        }
    }
    Ok(())
}

/// Inputs with repeats of every kind: runs, periods, Fibonacci words,
/// ruler sequences, copies of earlier parts with an edit, random text.
pub fn structured(case: u64, n: usize) -> Vec<u8> {
    let mut r = eval::Rng(case.wrapping_mul(0x9E37_79B9) ^ eval::seed());
    let alphabet: Vec<u8> = match r.below(6) {
        0 => vec![97, 98],
        1 => vec![0, 255],
        2 => vec![0, 128, 255],
        3 => vec![32, 33, 31],
        4 => (97..97 + 1 + r.below(8) as u8).collect(),
        _ => (0..1 + r.below(30)).map(|i| (i * 37 + r.0 % 7) as u8).collect(),
    };
    let k = alphabet.len() as u64;
    let mut x: Vec<u8> = Vec::new();
    while x.len() < n {
        match r.below(7) {
            0 => { // run
                let s = alphabet[r.below(k) as usize];
                let most = if r.below(3) == 0 { n as u64 } else { 12 };
                let l = 1 + r.below(most);
                x.extend((0..l).map(|_| s));
            }
            1 => { // period
                let per: Vec<u8> = (0..1 + r.below(6)).map(|_| alphabet[r.below(k) as usize]).collect();
                let l = 2 + r.below(40);
                x.extend((0..l).map(|i| per[i as usize % per.len()]));
            }
            2 => { // Fibonacci word
                let (mut a, mut b) = (vec![alphabet[0]], vec![alphabet[0], alphabet[k as usize - 1]]);
                while b.len() < 30 { let c = [&b[..], &a[..]].concat(); a = b; b = c; }
                let l = 1 + r.below(b.len() as u64) as usize;
                x.extend_from_slice(&b[..l]);
            }
            3 => { // ruler sequence
                let l = 1 + r.below(32);
                x.extend((1..=l).map(|i| alphabet[(i.trailing_zeros() as u64 % k) as usize]));
            }
            4 | 5 if !x.is_empty() => { // copy of an earlier part, perhaps edited
                let s = r.below(x.len() as u64) as usize;
                let l = 1 + r.below(60) as usize;
                for j in 0..l { let b = x[s + j]; x.push(b); }
                if r.below(2) == 0 { x.push(alphabet[r.below(k) as usize]); }
            }
            _ => {
                let l = 1 + r.below(20);
                for _ in 0..l { x.push(alphabet[r.below(k) as usize]); }
            }
        }
    }
    x.truncate(n);
    x
}


/// Inputs beyond 2^16 bytes: long runs, and repeats further apart than 2^16.
pub fn beyond_16_bits(case: u64) -> Vec<u8> {
    let mut r = eval::Rng(case.wrapping_mul(77) ^ eval::seed());
    let (a, b) = [(97u8, 98u8), (0, 255), (0, 128), (32, 33)][case as usize % 4];
    let mut x = Vec::new();
    if case % 2 == 0 {
        if case % 4 == 2 { x.extend_from_slice(&[b, a, b]); }
        x.extend((0..65_538 + r.below(30)).map(|_| a));
        x.extend_from_slice(&[b, a, a, b, b, a]);
        x.extend((0..1 + r.below(2000)).map(|_| a));
        x.extend(structured(case, 200));
    } else {
        let mark: Vec<u8> = (0..6).map(|i| 200 + i).collect();
        x.extend_from_slice(&mark);
        x.extend((0..65_530 + r.below(40)).map(|i| if i % 7 == 0 { a } else { b }));
        x.extend_from_slice(&mark);
        x.extend_from_slice(&[a, b]);
        x.extend_from_slice(&mark);
        x.extend(structured(case, 200));
    }
    x
}

pub fn shown(x: &[u8]) -> String {
    if x.len() <= 300 { return format!("{:?}", x) }
    // run lengths
    let mut out = String::new();
    let mut i = 0;
    while i < x.len() && out.len() < 1500 {
        let mut j = i;
        while j < x.len() && x[j] == x[i] { j += 1 }
        if j - i > 1 { out += &format!("{}x{} ", x[i], j - i) } else { out += &format!("{} ", x[i]) }
        i = j;
    }
    if i < x.len() { out += "..." }
    format!("[{} bytes: {}]", x.len(), out)
}
