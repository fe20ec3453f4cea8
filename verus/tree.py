"""C19 (and C25's contract of the history source): the suffix tree's links,
records and tracked contexts stay sound over every history of bits."""
import sources

_D = sources.DEFINITION
STATES = _D[:_D.index("// ---- the definition of the statistics")]
PRELUDE = r'''
use vstd::prelude::*;
verus! {

// ---- what is assumed here --------------------------------------------------
/// A run-time check of the program: returns only if the condition holds.
#[verifier::external_body]
fn vx_stop_unless(c: bool) ensures c { unimplemented!() }
/// `o.unwrap()`: returns only if there is a value.
#[verifier::external_body]
fn vx_unwrap<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { unimplemented!() }
#[verifier::external_body]
fn vx_elem<T>(v: &[T], i: usize) -> (r: &T) ensures i < v@.len(), *r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
fn vx_min_u16(a: u16, b: u16) -> (r: u16) ensures r == (if a <= b { a } else { b }) { unimplemented!() }
#[verifier::external_body]
fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { unimplemented!() }
#[verifier::external_body]
fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { b } else { a }) { unimplemented!() }

/// The input window (its own contracts: C14).
#[verifier::external_body]
pub struct InputWindow { vx: () }
pub uninterp spec fn w_size(w: InputWindow) -> usize;
pub uninterp spec fn w_max(w: InputWindow) -> usize;
pub uninterp spec fn w_start(w: InputWindow) -> WindowIndex;
pub uninterp spec fn w_cursor(w: InputWindow) -> WindowIndex;
pub uninterp spec fn w_add(w: InputWindow, i: WindowIndex, k: usize) -> WindowIndex;
pub uninterp spec fn w_sub(w: InputWindow, i: WindowIndex, k: usize) -> WindowIndex;
pub uninterp spec fn w_diff(w: InputWindow, a: WindowIndex, b: WindowIndex) -> usize;
pub uninterp spec fn w_bit(w: InputWindow, i: WindowIndex, k: usize) -> Bit;
/// The byte k places before the last one has size - 1 - k bytes before it.
#[verifier::external_body]
pub proof fn window_tail(w: InputWindow, k: usize)
    requires k < w_size(w)
    ensures w_diff(w, w_sub(w, w_cursor(w), k), w_start(w)) == w_size(w) - 1 - k
{ }
impl InputWindow {
    #[verifier::external_body]
    pub fn new(max_window_size: usize, initial_shift: usize) -> (r: Self) ensures w_size(r) == 0, w_max(r) == max_window_size { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == w_size(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn max_size(&self) -> (r: usize) ensures r == w_max(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn start(&self) -> (r: WindowIndex) ensures r == w_start(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn cursor(&self) -> (r: WindowIndex) ensures r == w_cursor(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn index_add(&self, i: WindowIndex, k: usize) -> (r: WindowIndex) ensures r == w_add(*self, i, k) { unimplemented!() }
    #[verifier::external_body]
    pub fn index_increment(&self, i: WindowIndex) -> (r: WindowIndex) ensures r == w_add(*self, i, 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn index_subtract(&self, i: WindowIndex, k: usize) -> (r: WindowIndex) ensures r == w_sub(*self, i, k) { unimplemented!() }
    #[verifier::external_body]
    pub fn index_decrement(&self, i: WindowIndex) -> (r: WindowIndex) ensures r == w_sub(*self, i, 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn index_diff(&self, a: WindowIndex, b: WindowIndex) -> (r: usize) ensures r == w_diff(*self, a, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn index_is_smaller(&self, a: WindowIndex, b: WindowIndex) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_bit(&self, i: WindowIndex, k: usize) -> (r: Bit) ensures r == w_bit(*self, i, k) { unimplemented!() }
    #[verifier::external_body]
    pub fn byte(&self, i: WindowIndex) -> (r: u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes_differ_on(&self, a: WindowIndex, b: WindowIndex, k: usize) -> (r: bool) ensures r == (w_bit(*self, a, k) != w_bit(*self, b, k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_bit_at_cursor(&mut self, b: Bit, k: usize)
        ensures w_size(*final(self)) == w_size(*old(self)), w_max(*final(self)) == w_max(*old(self)), w_start(*final(self)) == w_start(*old(self)),
            w_cursor(*final(self)) == w_cursor(*old(self)), w_bit(*final(self), w_cursor(*final(self)), k) == b { unimplemented!() }
    #[verifier::external_body]
    pub fn advance_start(&mut self) ensures w_size(*final(self)) == w_size(*old(self)) - 1, w_max(*final(self)) == w_max(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn advance_cursor(&mut self) ensures w_size(*final(self)) == w_size(*old(self)) + 1, w_max(*final(self)) == w_max(*old(self)) { unimplemented!() }
}

/// The pool of records (C15): what is in use and what it holds.
#[verifier::external_body]
pub struct Nodes { vx: () }
pub uninterp spec fn recs(p: Nodes) -> Map<int, Node>;
impl Nodes {
    pub const NUM_ROOTS: usize = 1;
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Self) ensures recs(r) == Map::<int, Node>::empty().insert(0, Node::INVALID) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_node(&mut self, n: Node) -> (r: NodeChild)
        ensures target(r) >= 1, !recs(*old(self)).dom().contains(target(r)), recs(*final(self)) == recs(*old(self)).insert(target(r), n) { unimplemented!() }
    #[verifier::external_body]
    pub fn update_node(&mut self, i: NodeIndex, n: Node)
        requires recs(*old(self)).dom().contains(i.value as int)
        ensures recs(*final(self)) == recs(*old(self)).insert(i.value as int, n) { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_node(&mut self, i: NodeIndex)
        requires recs(*old(self)).dom().contains(i.value as int), i.value >= 1
        ensures recs(*final(self)) == recs(*old(self)).remove(i.value as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn index(&self, i: NodeIndex) -> (r: &Node)
        requires recs(*self).dom().contains(i.value as int)
        ensures *r == recs(*self)[i.value as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn index_mut(&mut self, i: NodeIndex) -> (r: &mut Node)
        requires recs(*old(self)).dom().contains(i.value as int)
        ensures *r == recs(*old(self))[i.value as int], recs(*final(self)) == recs(*old(self)).insert(i.value as int, *final(r)) { unimplemented!() }
}

/// An estimate within its range (C09): what a new one is and what an update keeps.
pub uninterp spec fn learned(e: DeceleratingEstimator) -> bool;
#[verifier::external_body]
pub proof fn learned_new(c: DeceleratingEstimatorCache, b: Bit, n: u16) requires 1 <= n <= 1000 ensures learned(est_new(c, b, n)) { }
#[verifier::external_body]
pub proof fn learned_next(e: DeceleratingEstimator, b: Bit, r: DeceleratingEstimatorRates) requires learned(e) ensures learned(est_next(e, b, r)) { }
impl RecentBitsHistory {
    pub const INVALID: Self = RecentBitsHistory(0);
    #[verifier::external_body]
    pub fn is_valid(&self) -> (r: bool) { unimplemented!() }
}
'''

SPECS = r'''
pub open spec fn side(d: Direction) -> int { if d is Left { 0 } else { 1 } }
pub open spec fn toward(b: Bit) -> Direction { if b is Zero { Direction::Left } else { Direction::Right } }
/// The record a link leads to (records are numbered from 0, the root).
pub open spec fn target(c: NodeChild) -> int { -1 - c.value }

/// Statistics a record can hold.
pub open spec fn record_ok(n: Node) -> bool {
    1 <= n.left_count <= 1000 && 1 <= n.right_count <= 1000 && learned(n.probability_estimator)
}
/// A record that is part of the tree.
pub open spec fn live(m: Map<int, Node>, proper: bool, i: int) -> bool { m.dom().contains(i) && (i >= 1 || (i == 0 && proper)) }
pub open spec fn kid(m: Map<int, Node>, i: int, d: int) -> NodeChild { m[i].children.0[d] }
/// A link is that of a window position, or leads to a record of the tree
/// which no other link leads to.
pub open spec fn sits(m: Map<int, Node>, up: Map<int, (int, int)>, proper: bool, c: NodeChild, i: int, d: int) -> bool {
    c.value >= 0 || (target(c) >= 1 && live(m, proper, target(c)) && up[target(c)] == (i, d))
}
/// No link dangles, none is missing, no record is reached by two of them, the
/// root by none; every record's statistics are sound.
pub open spec fn links(m: Map<int, Node>, up: Map<int, (int, int)>, proper: bool) -> bool {
    &&& m.dom().contains(0)
    &&& forall|i: int| #![trigger m.dom().contains(i)] #![trigger m[i]] live(m, proper, i) ==>
        sits(m, up, proper, m[i].children.0[0], i, 0) && sits(m, up, proper, m[i].children.0[1], i, 1) && record_ok(m[i])
}
pub proof fn look(m: Map<int, Node>, up: Map<int, (int, int)>, proper: bool, i: int)
    requires links(m, up, proper)
    ensures m.dom().contains(0), live(m, proper, i) ==> sits(m, up, proper, m[i].children.0[0], i, 0) && sits(m, up, proper, m[i].children.0[1], i, 1) && record_ok(m[i])
{ if live(m, proper, i) { assert(m.dom().contains(i)); } }
/// The same statistics.
pub open spec fn like(a: Node, b: Node) -> bool {
    a.left_count == b.left_count && a.right_count == b.right_count && a.probability_estimator == b.probability_estimator
}
/// The same links and statistics.
pub proof fn keeps(m: Map<int, Node>, n: Map<int, Node>, up: Map<int, (int, int)>)
    requires links(m, up, true), n.dom() =~= m.dom(), forall|j: int| #[trigger] n.dom().contains(j) ==> n[j].children == m[j].children && record_ok(n[j]) == record_ok(m[j])
    ensures links(n, up, true)
{
    assert(m.dom().contains(0));
    assert forall|j: int| #[trigger] n.dom().contains(j) && live(n, true, j) implies
        sits(n, up, true, n[j].children.0[0], j, 0) && sits(n, up, true, n[j].children.0[1], j, 1) && record_ok(n[j]) by {
        assert(m.dom().contains(j));
        assert(sits(m, up, true, m[j].children.0[0], j, 0) && sits(m, up, true, m[j].children.0[1], j, 1) && record_ok(m[j]));
    }
}
/// A record is put between another and one of its leaves.
pub proof fn cut_leaf(m: Map<int, Node>, n: Map<int, Node>, up: Map<int, (int, int)>, i: int, s: int, way: int)
    requires links(m, up, true), i >= 0, m.dom().contains(i), s >= 1, !m.dom().contains(s), n.dom() =~= m.dom().insert(s), way == 0 || way == 1,
        forall|j: int| j != i && j != s && #[trigger] n.dom().contains(j) ==> n[j] == m[j], record_ok(n[i]), record_ok(n[s]), m[i].children.0[way].value >= 0,
        n[i].children.0[way].value == -1 - s, n[i].children.0[1 - way] == m[i].children.0[1 - way], n[s].children.0[0].value >= 0, n[s].children.0[1].value >= 0
    ensures links(n, up.insert(s, (i, way)), true)
{
    let u2 = up.insert(s, (i, way));
    assert(m.dom().contains(0));
    assert forall|j: int| #[trigger] n.dom().contains(j) && live(n, true, j) implies
        sits(n, u2, true, n[j].children.0[0], j, 0) && sits(n, u2, true, n[j].children.0[1], j, 1) && record_ok(n[j]) by {
        if j != s { assert(m.dom().contains(j));
            assert(sits(m, up, true, m[j].children.0[0], j, 0) && sits(m, up, true, m[j].children.0[1], j, 1) && record_ok(m[j])); }
    }
}
/// A record is put between another and what leads to it, by moving that to s.
pub proof fn cut_inner(m: Map<int, Node>, n: Map<int, Node>, up: Map<int, (int, int)>, i: int, s: int, d: int) -> (u2: Map<int, (int, int)>)
    requires links(m, up, true), i >= 0, m.dom().contains(i), s >= 1, !m.dom().contains(s), n.dom() =~= m.dom().insert(s), d == 0 || d == 1,
        forall|j: int| j != i && j != s && #[trigger] n.dom().contains(j) ==> n[j] == m[j], record_ok(n[i]), record_ok(n[s]),
        n[s].children.0[0] == m[i].children.0[0], n[s].children.0[1] == m[i].children.0[1], n[i].children.0[d].value >= 0, n[i].children.0[1 - d].value == -1 - s
    ensures links(n, u2, true)
{
    let u0 = if m[i].children.0[0].value < 0 { up.insert(target(m[i].children.0[0]), (s, 0int)) } else { up };
    let u1 = if m[i].children.0[1].value < 0 { u0.insert(target(m[i].children.0[1]), (s, 1int)) } else { u0 };
    let u2 = u1.insert(s, (i, 1 - d));
    assert(m.dom().contains(0));
    assert(sits(m, up, true, m[i].children.0[0], i, 0) && sits(m, up, true, m[i].children.0[1], i, 1));
    assert forall|j: int| #[trigger] n.dom().contains(j) && live(n, true, j) implies
        sits(n, u2, true, n[j].children.0[0], j, 0) && sits(n, u2, true, n[j].children.0[1], j, 1) && record_ok(n[j]) by {
        if j != s { assert(m.dom().contains(j));
            assert(sits(m, up, true, m[j].children.0[0], j, 0) && sits(m, up, true, m[j].children.0[1], j, 1) && record_ok(m[j])); }
    }
    u2
}
/// One record between two others is left out.
pub proof fn drop_inner(m: Map<int, Node>, n: Map<int, Node>, up: Map<int, (int, int)>, i: int, p: int, pd: int, c: NodeChild)
    requires links(m, up, true), i >= 1, m.dom().contains(i), p >= 0, p != i, m.dom().contains(p), pd == 0 || pd == 1, m[p].children.0[pd].value == -1 - i,
        c.value >= 0 || c == m[i].children.0[0] || c == m[i].children.0[1], n.dom() =~= m.dom().remove(i), n[p].children.0[pd] == c,
        forall|j: int| #[trigger] n.dom().contains(j) ==> like(n[j], m[j]) && (j != p || pd != 0 ==> n[j].children.0[0] == m[j].children.0[0])
            && (j != p || pd != 1 ==> n[j].children.0[1] == m[j].children.0[1])
    ensures links(n, if c.value < 0 { up.insert(target(c), (p, pd)) } else { up }, true)
{
    let u2 = if c.value < 0 { up.insert(target(c), (p, pd)) } else { up };
    assert(sits(m, up, true, m[i].children.0[0], i, 0) && sits(m, up, true, m[i].children.0[1], i, 1));
    assert(sits(m, up, true, m[p].children.0[0], p, 0) && sits(m, up, true, m[p].children.0[1], p, 1));
    assert(m.dom().contains(0));
    assert forall|j: int| #[trigger] n.dom().contains(j) && live(n, true, j) implies
        sits(n, u2, true, n[j].children.0[0], j, 0) && sits(n, u2, true, n[j].children.0[1], j, 1) && record_ok(n[j]) by {
        assert(m.dom().contains(j));
        assert(sits(m, up, true, m[j].children.0[0], j, 0) && sits(m, up, true, m[j].children.0[1], j, 1) && record_ok(m[j]));
    }
}
/// The root is replaced by the record below it.
pub proof fn drop_root(m: Map<int, Node>, n: Map<int, Node>, up: Map<int, (int, int)>, q: int, qd: int) -> (u2: Map<int, (int, int)>)
    requires links(m, up, true), qd == 0 || qd == 1, m[0].children.0[qd].value == -1 - q, q >= 1,
        n.dom() =~= m.dom().remove(q), like(n[0], m[q]), n[0].children.0 == m[q].children.0,
        forall|j: int| j != 0 && #[trigger] n.dom().contains(j) ==> n[j] == m[j]
    ensures links(n, u2, true)
{
    assert(m.dom().contains(0));
    assert(sits(m, up, true, m[0].children.0[0], 0, 0) && sits(m, up, true, m[0].children.0[1], 0, 1));
    assert(m.dom().contains(q));
    assert(sits(m, up, true, m[q].children.0[0], q, 0) && sits(m, up, true, m[q].children.0[1], q, 1) && record_ok(m[q]));
    let u1 = if m[q].children.0[0].value < 0 { up.insert(target(m[q].children.0[0]), (0int, 0int)) } else { up };
    let u2 = if m[q].children.0[1].value < 0 { u1.insert(target(m[q].children.0[1]), (0int, 1int)) } else { u1 };
    assert forall|j: int| #[trigger] n.dom().contains(j) && live(n, true, j) implies
        sits(n, u2, true, n[j].children.0[0], j, 0) && sits(n, u2, true, n[j].children.0[1], j, 1) && record_ok(n[j]) by {
        assert(m.dom().contains(j));
        if j != 0 { assert(sits(m, up, true, m[j].children.0[0], j, 0) && sits(m, up, true, m[j].children.0[1], j, 1) && record_ok(m[j])); }
    }
    u2
}
/// The tree becomes degenerate.
pub proof fn drop_all(m: Map<int, Node>, n: Map<int, Node>, up: Map<int, (int, int)>)
    requires links(m, up, true), n.dom() =~= m.dom(), forall|j: int| j != 0 && #[trigger] n.dom().contains(j) ==> n[j] == m[j]
    ensures links(n, up, false)
{
    assert forall|j: int| #[trigger] n.dom().contains(j) && live(n, false, j) implies
        sits(n, up, false, n[j].children.0[0], j, 0) && sits(n, up, false, n[j].children.0[1], j, 1) && record_ok(n[j]) by {
        assert(m.dom().contains(j));
        assert(sits(m, up, true, m[j].children.0[0], j, 0) && sits(m, up, true, m[j].children.0[1], j, 1) && record_ok(m[j]));
    }
}
/// A tracked context refers to a record of the tree.
pub open spec fn tracked(m: Map<int, Node>, proper: bool, c: Context) -> bool {
    live(m, proper, c.node_index.value as int) && (c.in_leaf ==> c.direction_from_parent is Some) && 1 <= c.incoming_edge_visits_count <= 1000
}
pub open spec fn all_tracked(m: Map<int, Node>, proper: bool, s: Seq<Context>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> tracked(m, proper, #[trigger] s[k])
}
/// The place of the last k + 1 bytes in the text.
pub open spec fn here(t: Tree, k: usize) -> WindowIndex { w_sub(t.window, w_cursor(t.window), k) }
/// All but the links.
pub open spec fn but_links(a: Node, b: Node) -> bool {
    like(a, b) && a.text_start == b.text_start && a.cost_trackers == b.cost_trackers && a.bits_runs == b.bits_runs && a.recent_bits == b.recent_bits && a.depth == b.depth
}
/// What `next_state` makes of a context that has seen both bits (C17).
pub open spec fn seen(n: Node, bit: Bit, t: CostTrackers, lut: DeceleratingEstimatorRates) -> Node {
    Node { left_count: if bit is Zero && n.left_count < 1000 { (n.left_count + 1) as u16 } else { n.left_count },
        right_count: if bit is One && n.right_count < 1000 { (n.right_count + 1) as u16 } else { n.right_count },
        probability_estimator: est_next(n.probability_estimator, bit, lut), recent_bits: recent_next(n.recent_bits, bit),
        bits_runs: runs_next(n.bits_runs, bit), cost_trackers: t, ..n }
}
/// What `next_state` makes of a context that saw n times the other bit (C17).
pub open spec fn parted(r: Node, luts: LookUpTables, b: Bit, n: u16) -> bool {
    &&& r.probability_estimator == est_new(cache_of(luts), b, n) && r.recent_bits == recent_new(b, n) && r.bits_runs == runs_new(b, n)
    &&& r.cost_trackers.stationary == cost_new(costs_of(luts), n) && r.cost_trackers.non_stationary == cost_new(costs_of(luts), n)
    &&& r.left_count == (if b is Zero { 1u16 } else { n }) && r.right_count == (if b is Zero { n } else { 1u16 })
}
/// A context at a record goes on into what is below it: the record learns the
/// bit, the context now refers to the last place that went this way, and the
/// tree to this place.
pub open spec fn descended(m: Map<int, Node>, c: Context, at: WindowIndex, b: Bit, t: CostTrackers, lut: DeceleratingEstimatorRates, n: Map<int, Node>, c2: Context) -> bool {
    let i = c.node_index.value as int;
    let d = side(toward(b));
    let child = m[i].children.0[d];
    let node = seen(m[i], b, t, lut);
    &&& c2.direction_from_parent == Some(toward(b)) && c2.incoming_edge_visits_count == (if b is Zero { m[i].left_count } else { m[i].right_count })
    &&& n.dom() == m.dom()
    &&& if child.value >= 0 {
        &&& c2.in_leaf && c2.node_index == c.node_index && c2.suffix_index.value == child.value
        &&& but_links(n[i], node) && n[i].children.0[d].value == at.value && n[i].children.0[1 - d] == m[i].children.0[1 - d]
        &&& forall|j: int| j != i && #[trigger] n.dom().contains(j) ==> n[j] == m[j]
    } else {
        let m1 = m.insert(i, node);
        &&& c2.in_leaf == c.in_leaf && c2.node_index.value == target(child) && c2.suffix_index.value == m1[target(child)].text_start
        &&& n == m1.insert(target(child), Node { text_start: at.value as u32, ..m1[target(child)] })
    }
}
/// The way a context is on parts in two: one record more, s.
pub open spec fn cleft_at(m: Map<int, Node>, c: Context, at: WindowIndex, b: Bit, depth: int, luts: LookUpTables, n: Map<int, Node>, s: int) -> bool {
    let i = c.node_index.value as int;
    let d = side(toward(b));
    &&& !m.dom().contains(s) && n.dom() == m.dom().insert(s) && n == m.insert(s, n[s]).insert(i, n[i])
    &&& if c.in_leaf {
            let way = side(c.direction_from_parent->0);
            &&& but_links(n[i], m[i]) && target(n[i].children.0[way]) == s && n[i].children.0[1 - way] == m[i].children.0[1 - way]
            &&& n[s].depth == depth && n[s].text_start == m[i].children.0[way].value && parted(n[s], luts, b, c.incoming_edge_visits_count as u16)
            &&& n[s].children.0[d].value == at.value && n[s].children.0[1 - d].value == c.suffix_index.value
        } else {
            &&& n[s] == Node { text_start: c.suffix_index.value as u32, ..m[i] }
            &&& n[i].depth == depth && n[i].text_start == m[i].text_start && parted(n[i], luts, b, c.incoming_edge_visits_count as u16)
            &&& n[i].children.0[d].value == at.value && target(n[i].children.0[1 - d]) == s
        }
}
pub open spec fn cleft(m: Map<int, Node>, c: Context, at: WindowIndex, b: Bit, depth: int, luts: LookUpTables, n: Map<int, Node>) -> bool {
    exists|s: int| #[trigger] cleft_at(m, c, at, b, depth, luts, n, s)
}
/// A context whose leaf became a record is at that record.
pub open spec fn corrected(m: Map<int, Node>, c: Context) -> Context {
    let child = m[c.node_index.value as int].children.0[side(c.direction_from_parent->0)];
    if c.in_leaf && child.value < 0 { Context { in_leaf: false, node_index: NodeIndex { value: target(child) as usize }, ..c } } else { c }
}
/// The oldest suffix, which leaves the record i on the side `way`, is left
/// out. If a later one repeats it nothing is; otherwise its sibling takes the
/// place of the record (with the record's place in the text if a context is
/// there), and so do the contexts at it.
pub open spec fn forgot(t0: Tree, was: Seq<Context>, i: NodeIndex, way: Direction, p: NodeIndex, pway: Option<Direction>, t: Tree, now: Seq<Context>) -> bool {
    let m = recs(t0.nodes);
    let n = recs(t.nodes);
    let other = m[i.value as int].children.0[1 - side(way)];
    let q = target(other);
    let to = NodeIndex { value: q as usize };
    let found = exists|k: int| 0 <= k < was.len() && (#[trigger] was[k]).node_index == i;
    if m[i.value as int].children.0[side(way)].value != w_start(t0.window).value {
        &&& n == m && t.tree_state == t0.tree_state && now.len() <= was.len() && now == was.take(now.len() as int)
        &&& forall|k: int| 0 <= k < was.len() ==> ((#[trigger] was[k]).suffix_index == w_start(t0.window) <==> k >= now.len())
    } else if i.value == 0 {
        if other.value < 0 {
            &&& n =~= m.insert(0, Node { text_start: m[0].text_start, ..m[q] }).remove(q) && t.tree_state == t0.tree_state && now.len() == was.len()
            &&& forall|k: int| 0 <= k < was.len() ==> #[trigger] now[k] == (if was[k].node_index == to { Context { node_index: i, ..was[k] } } else { was[k] })
        } else {
            now.len() == 0 && !t.proper()
        }
    } else {
        let pd = side(pway->0);
        let link = n[p.value as int].children.0[pd];
        &&& n.dom() =~= m.dom().remove(i.value as int) && t.tree_state == t0.tree_state && now.len() == was.len()
        &&& link.value == (if other.value >= 0 && found { m[i.value as int].text_start as int } else { other.value as int })
        &&& forall|j: int| #[trigger] n.dom().contains(j) ==> {
            &&& but_links(n[j], if other.value < 0 && j == q && found { Node { text_start: m[i.value as int].text_start, ..m[j] } } else { m[j] })
            &&& j != p.value || pd != 0 ==> n[j].children.0[0] == m[j].children.0[0]
            &&& j != p.value || pd != 1 ==> n[j].children.0[1] == m[j].children.0[1]
        }
        &&& forall|k: int| 0 <= k < was.len() ==> #[trigger] now[k] == (if was[k].node_index != i { was[k] }
            else if other.value >= 0 { Context { node_index: p, direction_from_parent: pway, in_leaf: true, ..was[k] } }
            else { Context { node_index: to, direction_from_parent: pway, in_leaf: false, ..was[k] } })
    }
}
/// The record of order k of a tree that begins: all bytes so far were the
/// same, so it saw that bit as often as there are places before its own.
pub open spec fn founded(r: Node, t: Tree, k: usize, bit_index: usize, luts: LookUpTables, below: Option<NodeChild>) -> bool {
    let b = w_bit(t.window, w_cursor(t.window), bit_index);
    let d = side(toward(b));
    let n = w_size(t.window) - 1 - k;
    &&& r.depth == k * 8 + 7 - bit_index && r.text_start == here(t, k).value && parted(r, luts, b, (if n <= 1000 { n } else { 1000 }) as u16)
    &&& r.children.0[d].value == here(t, k).value
    &&& match below { Some(c) => r.children.0[1 - d] == c, None => r.children.0[1 - d].value == w_sub(t.window, here(t, k), 1).value }
}
/// What a bit does to the context of order k: it goes on, or the way it is on
/// parts there and it ends, or neither.
pub open spec fn moved(t0: Tree, c0: Context, k: usize, bit_index: usize, ts: Seq<CostTrackers>, count0: usize, t: Tree, c: Context, count: usize) -> bool {
    let m = recs(t0.nodes);
    let n = recs(t.nodes);
    let b = w_bit(t0.window, w_cursor(t0.window), bit_index);
    let w = corrected(m, c0);
    if m[w.node_index.value as int].depth == k * 8 + 7 - bit_index {
        count == count0 && !w.in_leaf && k < ts.len() && descended(m, w, here(t0, k), b, ts[k as int], rates_of(*t0.luts), n, c)
    } else if w_bit(t0.window, w_add(t0.window, c0.suffix_index, k), bit_index) != b {
        count == k && c == w && cleft(m, w, here(t0, k), b, k * 8 + 7 - bit_index, *t0.luts, n)
    } else {
        count == count0 && c == w && n == m
    }
}
/// A new byte: a context of order 0 at the root comes first, the longest goes
/// if there are as many as there can be.
pub open spec fn shifted(t: Tree, s: Seq<Context>, cap: int) -> Seq<Context> {
    let r = recs(t.nodes)[0];
    let v = r.left_count + r.right_count;
    seq![Context { suffix_index: w_sub(t.window, w_cursor(t.window), 1), node_index: NodeIndex { value: 0 }, incoming_edge_visits_count: (if v < 1000 { v } else { 1000 }) as i32,
        in_leaf: false, direction_from_parent: None }] + (if s.len() == cap { s.drop_last() } else { s })
}
impl Tree {
    pub open spec fn proper(&self) -> bool { self.tree_state is Proper }
    /// Tree and contexts together, `up` naming the link that leads to each record.
    pub open spec fn wf(&self, up: Map<int, (int, int)>) -> bool { self.root_index == 0 && links(recs(self.nodes), up, self.proper()) }
    pub open spec fn fits(&self, a: ActiveContexts, up: Map<int, (int, int)>) -> bool {
        &&& self.wf(up) && all_tracked(recs(self.nodes), self.proper(), a.items@)
        &&& a.items@.len() <= a.vx_cap <= 0x1000_0000 && a.vx_cap >= 1
        &&& !self.proper() ==> a.items@.len() == 0
    }
    pub open spec fn sound(&self, a: ActiveContexts) -> bool { exists|up: Map<int, (int, int)>| self.fits(a, up) }
    pub open spec fn same(&self, o: &Self) -> bool { self.luts == o.luts && self.root_index == o.root_index && self.tree_state == o.tree_state && self.window == o.window }
}
/// What is reported for the context of order k.
pub open spec fn told_one(t: Tree, c: Context, bit: int, k: int) -> Seq<ContextState> {
    let w = t.window;
    let d = w_diff(w, w_sub(w, w_cursor(w), k as usize), c.suffix_index);
    let n = recs(t.nodes)[c.node_index.value as int];
    if n.depth == k * 8 + 7 - bit {
        seq![ContextState::ForNode { last_occurrence_distance: d, probability_estimator: n.probability_estimator, recent_bits: n.recent_bits, bits_runs: n.bits_runs, cost_trackers: n.cost_trackers }]
    } else {
        seq![ContextState::ForEdge { last_occurrence_distance: d, repeated_bit: w_bit(w, w_add(w, c.suffix_index, k as usize), bit as usize), occurrence_count: c.incoming_edge_visits_count as u16 }]
    }
}
pub open spec fn told(t: Tree, s: Seq<Context>, bit: int) -> Seq<ContextState> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { told(t, s.drop_last(), bit) + told_one(t, s.last(), bit, s.len() - 1) }
}
pub open spec fn told_same(t: Tree, bit: int, n: int) -> Seq<ContextState> {
    Seq::new(n as nat, |k: int| ContextState::ForEdge { last_occurrence_distance: 1, repeated_bit: w_bit(t.window, w_start(t.window), bit as usize),
        occurrence_count: (if w_size(t.window) - k - 1 <= 1000 { w_size(t.window) - k - 1 } else { 1000 }) as u16 })
}
pub open spec fn fine(s: ContextState) -> bool {
    match s { ContextState::ForEdge { occurrence_count, .. } => 1 <= occurrence_count <= 1000,
              ContextState::ForNode { probability_estimator, .. } => learned(probability_estimator) }
}
pub open spec fn all_fine(s: Seq<ContextState>) -> bool { forall|i: int| 0 <= i < s.len() ==> fine(#[trigger] s[i]) }

'''

M = "recs(%s.nodes)"
CTX = {
    "descend": dict(spec="""requires exists|up: Map<int, (int, int)>| #[trigger] old(tree).wf(up), old(tree).proper(), tracked(recs(old(tree).nodes), true, *old(self)), bit_index <= 7
ensures final(tree).same(old(tree)), recs(final(tree).nodes).dom() == recs(old(tree).nodes).dom(), tracked(recs(final(tree).nodes), true, *final(self)),
    forall|up: Map<int, (int, int)>| #[trigger] old(tree).wf(up) ==> final(tree).wf(up),
    descended(recs(old(tree).nodes), *old(self), here(*old(tree), order), w_bit(old(tree).window, w_cursor(old(tree).window), bit_index), new_cost_trackers, *rates_lut, recs(final(tree).nodes), *final(self)), !old(self).in_leaf""",
                    begin="""let ghost up = choose|up: Map<int, (int, int)>| tree.wf(up);
let ghost m = recs(tree.nodes);
let ghost i = self.node_index.value as int;
proof { assert(m.dom().contains(i)); assert(m.dom().contains(0)); }
""",
                    insert=[(r"new_cost_trackers, rates_lut\);", """
proof { learned_next(m[i].probability_estimator, bit, *rates_lut); assert(recs(tree.nodes).dom() =~= m.dom()); }
"""),
                            (r"let child = [^;]*;", """
let ghost d = side(direction);
proof { assert(child == m[i].children.0[d]); assert(m.dom().contains(target(child)) || child.value >= 0); }
""")],
                    end="""
proof {
    let n = recs(tree.nodes);
    assert(n.dom() =~= m.dom());
    assert forall|u: Map<int, (int, int)>| #[trigger] old(tree).wf(u) implies tree.wf(u) by {
        assert forall|j: int| #[trigger] n.dom().contains(j) && live(n, true, j) implies
            sits(n, u, true, n[j].children.0[0], j, 0) && sits(n, u, true, n[j].children.0[1], j, 1) && record_ok(n[j]) by {
            assert(m.dom().contains(j));
            assert(sits(m, u, true, m[j].children.0[0], j, 0) && sits(m, u, true, m[j].children.0[1], j, 1) && record_ok(m[j]));
        }
    }
}
"""),
}
ACT = {
    "new": dict(spec="requires max_order < 0x1000_0000\nensures res.items@.len() == 0, res.vx_cap == max_order + 1"),
    "max_order": dict(spec="requires self.vx_cap >= 1\nensures res == self.vx_cap - 1"),
    "count": dict(spec="ensures res == self.items@.len()"),
    "keep_only": dict(spec="requires count <= old(self).items@.len()\nensures final(self).items@ =~= old(self).items@.take(count as int), final(self).vx_cap == old(self).vx_cap"),
    "shift": dict(spec="""requires old(tree).sound(*old(self))
ensures final(tree).sound(*final(self)), final(tree).same(old(tree)), final(self).vx_cap == old(self).vx_cap,
    old(tree).proper() ==> final(self).items@ =~= shifted(*old(tree), old(self).items@, old(self).vx_cap as int)
        && recs(final(tree).nodes) =~= recs(old(tree).nodes).insert(0, Node { text_start: w_cursor(old(tree).window).value as u32, ..recs(old(tree).nodes)[0] }),
    !old(tree).proper() ==> final(self).items@ == old(self).items@ && recs(final(tree).nodes) == recs(old(tree).nodes)""",
                  begin="""hide(links);
let ghost up = choose|up: Map<int, (int, int)>| tree.fits(*self, up);
let ghost m = recs(tree.nodes);
let ghost was = self.items@;
proof { look(m, up, tree.proper(), 0); assert(tree.fits(*self, up)); }
""",
                  end="""
proof {
    let n = recs(tree.nodes);
    keeps(m, n, up);
    assert(n =~= m.insert(0, Node { text_start: w_cursor(tree.window).value as u32, ..m[0] }));
    assert(self.items@ =~= shifted(*old(tree), was, self.vx_cap as int));
    assert forall|k: int| 0 <= k < self.items@.len() implies tracked(n, true, #[trigger] self.items@[k]) by { if k > 0 { assert(tracked(m, true, was[k - 1])); } }
    assert(tree.fits(*self, up));
}
"""),
}
WALK = """invariant self.wf(up), self.proper(), m == recs(self.nodes), m.dom().contains(0), live(m, true, node_index.value as int),
    *self == *old(self), *active_contexts == *old(active_contexts),
    (parent_node_index_opt is Some) == (node_direction_opt is Some),
    parent_node_index_opt is None ==> node_index.value == 0,
    parent_node_index_opt matches Some(p) ==> live(m, true, p.value as int) && node_index.value >= 1 && m[p.value as int].children.0[side(node_direction_opt->0)] == (NodeChild { value: (-1 - node_index.value) as i32 }) && node_index.value <= 0x7fff_ffff
        && node_direction_opt->0 == path(*self, p.value as int),
    (leaf_direction_opt is Some) == (leaf_sibling_opt is Some),
    leaf_direction_opt matches Some(d) ==> d == path(*self, node_index.value as int) && m[node_index.value as int].children.0[side(d)].value >= 0 && leaf_sibling_opt->0 == m[node_index.value as int].children.0[1 - side(d)],
"""
MOVED = """invariant %s, active_contexts.vx_cap == old(active_contexts).vx_cap, active_contexts.items@.len() == old(active_contexts).items@.len(), vx_n == active_contexts.items@.len(),
    forall|k: int| vx_i <= k < vx_n ==> #[trigger] active_contexts.items@[k] == old(active_contexts).items@[k],
"""
TREE = {
    "tree_state": dict(spec="ensures res == self.tree_state"),
    "new": dict(spec="ensures res.luts == luts, res.nodes == nodes, res.root_index == root_index, res.tree_state is Degenerate, w_size(res.window) == 0, w_max(res.window) == max_window_size"),
    "get_root_node_index": dict(spec="ensures res.value == self.root_index"),
    "nodes": dict(spec="ensures *res == self.nodes"),
    "nodes_mut": dict(spec="ensures *res == old(self).nodes, final(self).nodes == *final(res), final(self).same(old(self))"),
    "start_new_byte": dict(spec="""requires old(self).sound(*old(active_contexts))
ensures final(self).sound(*final(active_contexts)), w_size(final(self).window) >= 1, final(active_contexts).vx_cap == old(active_contexts).vx_cap, final(self).luts == old(self).luts""",
                           begin="", end="""
proof { let up = choose|up: Map<int, (int, int)>| vx_t.fits(*active_contexts, up); assert(self.fits(*active_contexts, up)); }
""", insert=[(r"vx_stop_unless\(self\.window\.size\(\) < self\.window\.max_size\(\)\);|assert!\(self\.window\.size\(\) < self\.window\.max_size\(\)\);", "\nlet ghost vx_t = *self;\n")]),
    "remove_leftmost_suffix": dict(attr="#[verifier::exec_allows_no_decreases_clause]\n", spec="""requires old(self).sound(*old(active_contexts))
ensures final(self).sound(*final(active_contexts)), w_size(final(self).window) == w_size(old(self).window) - 1, final(active_contexts).vx_cap == old(active_contexts).vx_cap,
    final(self).luts == old(self).luts""",
        begin="""hide(links);
let ghost up = choose|up: Map<int, (int, int)>| self.fits(*active_contexts, up);
let ghost m = recs(self.nodes);
proof { not_i32(); look(m, up, self.proper(), 0); }
""",
        loops=[
            dict(inv=WALK, begin="proof { not_i32(); look(m, up, true, node_index.value as int); }\n",
                 after="proof { look(m, up, true, node_index.value as int); }\n"),
            dict(inv="""invariant vx_n == active_contexts.items@.len(), vx_f == exists|k: int| 0 <= k < vx_i && (#[trigger] active_contexts.items@[k]).node_index == node_index,
"""),
            dict(inv="""invariant vx_k <= active_contexts.items@.len(), vx_k <= new_active_contexts_count <= active_contexts.items@.len(), *active_contexts == *old(active_contexts),
    forall|k: int| vx_k <= k < active_contexts.items@.len() ==> ((#[trigger] active_contexts.items@[k]).suffix_index == w_start(self.window) <==> k >= new_active_contexts_count),
decreases vx_k
"""),
            dict(inv=MOVED % "forall|k: int| 0 <= k < vx_i ==> (#[trigger] active_contexts.items@[k]) == (Context { node_index: if old(active_contexts).items@[k].node_index == leaf_sibling_node_index { root_index } else { old(active_contexts).items@[k].node_index }, ..old(active_contexts).items@[k] })"),
            dict(inv="invariant vx_n == active_contexts.items@.len(),\n"),
            dict(inv=MOVED % "forall|k: int| 0 <= k < vx_i ==> (#[trigger] active_contexts.items@[k]) == (if old(active_contexts).items@[k].node_index == node_index { Context { node_index: parent_node_index, direction_from_parent: Some(node_direction), in_leaf: true, ..old(active_contexts).items@[k] } } else { old(active_contexts).items@[k] })"),
            dict(inv=MOVED % "forall|k: int| 0 <= k < vx_i ==> (#[trigger] active_contexts.items@[k]) == (if old(active_contexts).items@[k].node_index == node_index { Context { node_index: leaf_sibling_node_index, direction_from_parent: Some(node_direction), in_leaf: false, ..old(active_contexts).items@[k] } } else { old(active_contexts).items@[k] })"),
        ],
        insert=[(r"self\.window\.advance_start\(\);", "\nproof { assert(self.fits(*active_contexts, up)); }\n")],
        end="""
proof {
    let n = recs(self.nodes);
    let i = node_index.value as int;
    let was = old(active_contexts).items@;
    let now = active_contexts.items@;
    let q = target(leaf_sibling);
    let p = if parent_node_index_opt is Some { parent_node_index_opt->0.value as int } else { 0int };
    let pd = if node_direction_opt is Some { side(node_direction_opt->0) } else { 0int };
    let ld = side(leaf_direction);
    let pr = self.proper();
    look(m, up, true, i);
    look(m, up, true, p);
    if leaf_sibling.value < 0 { look(m, up, true, q); }
    let mut u2 = up;
    if n == m { }
    else if i == 0 && leaf_sibling.value >= 0 { drop_all(m, n, up); }
    else if i == 0 { u2 = drop_root(m, n, up, q, 1 - ld); }
    else { assert(p != i); drop_inner(m, n, up, i, p, pd, n[p].children.0[pd]); u2 = if leaf_sibling.value < 0 { up.insert(q, (p, pd)) } else { up }; }
    assert(links(n, u2, pr));
    assert forall|k: int| 0 <= k < now.len() implies tracked(n, pr, #[trigger] now[k]) by { assert(tracked(m, true, was[k])); }
    assert(self.fits(*active_contexts, u2));
    if leaf_window_index != w_start(old(self).window) { assert(n == m); assert(now =~= was.take(now.len() as int));
        assert(forall|k: int| 0 <= k < was.len() ==> ((#[trigger] was[k]).suffix_index == w_start(old(self).window) <==> k >= now.len())); }
    else if i == 0 && leaf_sibling.value < 0 { assert(n =~= m.insert(0, Node { text_start: m[0].text_start, ..m[q] }).remove(q)); }
    else if i == 0 { assert(now.len() == 0); }
    else {
        assert(now.len() == was.len());
        if leaf_sibling.value >= 0 {
        assert(forall|k: int| 0 <= k < was.len() ==> #[trigger] now[k] == (if was[k].node_index != node_index { was[k] }
            else { Context { node_index: parent_node_index_opt->0, direction_from_parent: node_direction_opt, in_leaf: true, ..was[k] } }));
        } else {
        assert(forall|k: int| 0 <= k < was.len() ==> #[trigger] now[k] == (if was[k].node_index != node_index { was[k] }
            else { Context { node_index: NodeIndex { value: q as usize }, direction_from_parent: node_direction_opt, in_leaf: false, ..was[k] } }));
        }
        assert(node_found_in_active_contexts == exists|k: int| 0 <= k < was.len() && (#[trigger] was[k]).node_index == node_index);
        assert forall|j: int| #[trigger] n.dom().contains(j) implies but_links(n[j], if leaf_sibling.value < 0 && j == q && node_found_in_active_contexts { Node { text_start: m[i].text_start, ..m[j] } } else { m[j] }) by { }
        assert(n[p].children.0[pd].value == (if leaf_sibling.value >= 0 && node_found_in_active_contexts { m[i].text_start as int } else { leaf_sibling.value as int }));
    }
    assert(forgot(*old(self), was, node_index, leaf_direction, if parent_node_index_opt is Some { parent_node_index_opt->0 } else { node_index }, node_direction_opt, *self, now));
}
"""),
    "gather_states": dict(spec="""requires self.sound(*active_contexts), old(collected_states).items@.len() == 0, bit_index <= 7, w_size(self.window) >= 1
ensures all_fine(final(collected_states).items@), final(collected_states).items@.len() <= active_contexts.vx_cap,
    final(collected_states).items@ =~= (if self.proper() { told(*self, active_contexts.items@, bit_index as int) }
        else { told_same(*self, bit_index as int, if active_contexts.vx_cap <= w_size(self.window) - 1 { active_contexts.vx_cap as int } else { w_size(self.window) - 1 }) })""",
        loops=[dict(inv="""invariant self.fits(*active_contexts, up), self.proper(), bit_index <= 7, vx_n == active_contexts.items@.len(), m == recs(self.nodes),
    all_fine(collected_states.items@), collected_states.items@.len() <= order, collected_states.items@ =~= told(*self, active_contexts.items@.take(order as int), bit_index as int),
""", begin="""proof { assert(tracked(m, true, active_contexts.items@[order as int])); assert(m.dom().contains(active_contexts.items@[order as int].node_index.value as int));
    assert(active_contexts.items@.take(order + 1).drop_last() =~= active_contexts.items@.take(order as int)); }
""", after="proof { assert(active_contexts.items@.take(active_contexts.items@.len() as int) =~= active_contexts.items@); }\n"),
               dict(inv="""invariant bit_index <= 7, count <= w_size(self.window) - 1, count <= active_contexts.vx_cap,
    all_fine(collected_states.items@), collected_states.items@ =~= told_same(*self, bit_index as int, order as int),
""")],
        begin="""let ghost up = choose|up: Map<int, (int, int)>| self.fits(*active_contexts, up);
let ghost m = recs(self.nodes);
"""),
    "extend": dict(spec="""requires old(self).sound(*old(active_contexts)), bit_index <= 7, w_size(old(self).window) >= 1, max_order < 0x1000_0000
ensures final(self).sound(*final(active_contexts)), w_size(final(self).window) == w_size(old(self).window), final(active_contexts).vx_cap == old(active_contexts).vx_cap,
    final(self).luts == old(self).luts""",
        begin="""let ghost mut up = choose|up: Map<int, (int, int)>| self.fits(*active_contexts, up);
""",
        insert=[(r"self\.window\.set_bit_at_cursor\([^;]*;", "\nlet ghost vx_w = self.window;\nlet ghost mut vx_c = active_contexts.items@;\nproof { assert(self.wf(up)); }\n")],
        loops=[dict(inv="""invariant self.wf(up), self.proper(), all_tracked(recs(self.nodes), true, active_contexts.items@), bit_index <= 7, w_size(self.window) == w_size(old(self).window),
    active_contexts.items@.len() == old(active_contexts).items@.len(), active_contexts.vx_cap == old(active_contexts).vx_cap <= 0x1000_0000, active_contexts.items@.len() <= active_contexts.vx_cap,
    vx_k <= active_contexts.items@.len(), vx_k <= count <= active_contexts.items@.len(), self.luts == old(self).luts, self.window == vx_w,
    forall|k: int| 0 <= k < vx_k ==> #[trigger] active_contexts.items@[k] == old(active_contexts).items@[k],
decreases vx_k
""", begin="""proof { assert(tracked(recs(self.nodes), true, active_contexts.items@[vx_k - 1])); }
let ghost m0 = recs(self.nodes);
let ghost c0 = active_contexts.items@;
let ghost vx_t0 = *self;
let ghost vx_count0 = count;
proof { assert(m0.dom().contains(c0[vx_k - 1].node_index.value as int)); not_i32(); }
""", end="""
proof {
    if !self.wf(up) { up = choose|u: Map<int, (int, int)>| self.wf(u); }
    let n = recs(self.nodes);
    assert forall|k: int| 0 <= k < active_contexts.items@.len() implies tracked(n, true, #[trigger] active_contexts.items@[k]) by { assert(tracked(m0, true, c0[k])); if k != vx_k { assert(active_contexts.items@[k] == c0[k]); } }
    assert(moved(vx_t0, c0[vx_k as int], vx_k, bit_index, new_cost_trackers@, vx_count0, *self, active_contexts.items@[vx_k as int], count));
    assert(active_contexts.items@ =~= c0.update(vx_k as int, active_contexts.items@[vx_k as int]));
}
""", after="proof { vx_c = active_contexts.items@.take(count as int); }\n")], end="""
proof {
    assert(active_contexts.items@ =~= vx_c && self.window == vx_w);
    if self.proper() && !old(self).proper() { let u = choose|u: Map<int, (int, int)>| links(recs(self.nodes), u, true); assert(self.fits(*active_contexts, u)); }
    else { assert(self.fits(*active_contexts, up)); }
}
"""),
    "split_edge": dict(spec="""requires exists|up: Map<int, (int, int)>| #[trigger] old(self).wf(up), old(self).proper(), tracked(recs(old(self).nodes), true, *context), bit_index <= 7, context_order < 0x1000_0000
ensures exists|up: Map<int, (int, int)>| #[trigger] final(self).wf(up), final(self).same(old(self)), recs(old(self).nodes).dom().subset_of(recs(final(self).nodes).dom()),
    cleft(recs(old(self).nodes), *context, here(*old(self), context_order), w_bit(old(self).window, w_cursor(old(self).window), bit_index), context_order * 8 + 7 - bit_index, *luts, recs(final(self).nodes))""",
        begin="""hide(links);
let ghost up = choose|up: Map<int, (int, int)>| self.wf(up);
let ghost m = recs(self.nodes);
let ghost i = context.node_index.value as int;
proof { not_i32(); look(m, up, true, i); }
""", end="""
proof {
    let n = recs(self.nodes);
    let s = choose|s: int| n.dom().contains(s) && !m.dom().contains(s);
    let d = side(direction);
    assert(!m.dom().contains(s) && n.dom() =~= m.dom().insert(s));
    assert(n =~= m.insert(s, n[s]).insert(i, n[i]));
    if context.in_leaf {
        let way = side(context.direction_from_parent->0);
        assert(but_links(n[i], m[i]));
        assert(target(n[i].children.0[way]) == s && n[i].children.0[1 - way] == m[i].children.0[1 - way]);
        assert(n[s].depth == context_order * 8 + 7 - bit_index);
        assert(n[s].text_start == m[i].children.0[way].value);
        assert(n[s].children.0[d].value == here(*self, context_order).value && n[s].children.0[1 - d].value == context.suffix_index.value);
        cut_leaf(m, n, up, i, s, way);
        assert(self.wf(up.insert(s, (i, way))));
    } else {
        assert(n[s] == Node { text_start: context.suffix_index.value as u32, ..m[i] });
        assert(n[i].depth == context_order * 8 + 7 - bit_index);
        assert(n[i].text_start == m[i].text_start);
        assert(n[i].children.0[d].value == here(*self, context_order).value && target(n[i].children.0[1 - d]) == s);
        let u2 = cut_inner(m, n, up, i, s, d);
        assert(self.wf(u2));
    }
    assert(exists|u: Map<int, (int, int)>| #[trigger] self.wf(u));
    assert(cleft_at(m, *context, here(*old(self), context_order), w_bit(old(self).window, w_cursor(old(self).window), bit_index), context_order * 8 + 7 - bit_index, *luts, n, s));
}
"""),
    "setup_split_edge": dict(spec="""requires 1 <= context.incoming_edge_visits_count <= 1000, bit_index <= 7, context_order < 0x1000_0000
ensures record_ok(res), res.depth == context_order * 8 + 7 - bit_index, res.text_start == text_start.value,
    parted(res, *luts, w_bit(self.window, w_cursor(self.window), bit_index), context.incoming_edge_visits_count as u16)""",
        insert=[(r"let direction[^;]*;", "\nproof { learned_new(cache_of(*luts), bit, incoming_edge_visits_count); }\n")]),
    "split_degenerate_root_edge": dict(spec="""requires exists|up: Map<int, (int, int)>| #[trigger] old(self).wf(up), !old(self).proper(), bit_index <= 7, context_order < 0x1000_0000, context_order + 2 <= w_size(old(self).window)
ensures final(self).same(old(self)), exists|up: Map<int, (int, int)>| #[trigger] links(recs(final(self).nodes), up, true)""",
        begin="""let ghost mut up = choose|up: Map<int, (int, int)>| self.wf(up);
let ghost mut m = recs(self.nodes);
""",
        insert=[(r"let cost_trackers[^;]*;", "\nproof { learned_new(cache_of(*luts), bit, repeated_edge_count); }\n")],
        loops=[dict(inv="""invariant m == recs(self.nodes), self.same(old(self)), self.root_index == 0, bit_index <= 7, context_order < 0x1000_0000, context_order + 2 <= w_size(self.window), vx_k <= context_order + 1,
    links(m, up, vx_k == 0), direction == toward(bit), bit == w_bit(self.window, w_cursor(self.window), bit_index),
    last_node_index_opt matches Some(c) ==> target(c) >= 1 && m.dom().contains(target(c)) && up[target(c)] == (-1int, -1int),
    vx_k == 0 ==> last_node_index_opt is None,
decreases vx_k
""", begin="""let ghost was = last_node_index_opt;
proof { window_tail(self.window, (vx_k - 1) as usize); assert(m.dom().contains(0)); }
""", end="""
proof {
    let n = recs(self.nodes);
    let s = if vx_k == 0 { 0 } else { target(last_node_index_opt->0) };
    let d = if direction is Left { 1int } else { 0int };
    let u1 = if was is Some { up.insert(target(was->0), (s, d)) } else { up };
    let u2 = if vx_k == 0 { u1 } else { u1.insert(s, (-1int, -1int)) };
    let p = vx_k == 0;
    assert forall|j: int| #[trigger] n.dom().contains(j) && live(n, p, j) implies
        sits(n, u2, p, n[j].children.0[0], j, 0) && sits(n, u2, p, n[j].children.0[1], j, 1) && record_ok(n[j]) by {
        if j != s { assert(m.dom().contains(j));
            assert(sits(m, up, false, m[j].children.0[0], j, 0) && sits(m, up, false, m[j].children.0[1], j, 1) && record_ok(m[j])); }
    }
    let vx_r = n[s];
    assert(direction is Left ==> vx_r.children.0[0].value == here(*self, vx_k).value);
    assert(direction is Right ==> vx_r.children.0[1].value == here(*self, vx_k).value);
    assert(direction is Left ==> match was { Some(c) => vx_r.children.0[1] == c, None => vx_r.children.0[1].value == w_sub(self.window, here(*self, vx_k), 1).value });
    assert(direction is Right ==> match was { Some(c) => vx_r.children.0[0] == c, None => vx_r.children.0[0].value == w_sub(self.window, here(*self, vx_k), 1).value });
    assert(founded(vx_r, *self, vx_k, bit_index, *luts, was));
    up = u2; m = n;
}
""", after="")]),
}
SRC = {
    "new_special": dict(spec="requires max_order < 0xfff_ffff\nensures res.sound()", begin="proof { fresh(); }\n"),
    "new": dict(spec="requires max_order < 0xfff_ffff\nensures res.sound()"),
    "start_new_byte": dict(spec="requires old(self).sound()\nensures final(self).sound(), final(self).bit_index == 7, old(self).bit_index == -1"),
    "gather_history_states": dict(spec="""requires self.sound(), old(collected_states).items@.len() == 0
ensures all_fine(final(collected_states).items@), final(collected_states).items@.len() <= self.active_contexts.vx_cap, self.bit_index >= 0"""),
    "process_input_bit": dict(spec="requires old(self).sound()\nensures final(self).sound(), final(self).bit_index == old(self).bit_index - 1, old(self).bit_index >= 0, final(self).active_contexts.vx_cap == old(self).active_contexts.vx_cap"),
}
HIST = r'''
pub proof fn fresh()
    ensures forall|t: Tree, a: ActiveContexts| recs(t.nodes) == Map::<int, Node>::empty().insert(0, Node::INVALID) && !t.proper() && t.root_index == 0
        && a.items@.len() == 0 && 1 <= a.vx_cap <= 0x1000_0000 ==> #[trigger] t.sound(a)
{
    assert forall|t: Tree, a: ActiveContexts| recs(t.nodes) == Map::<int, Node>::empty().insert(0, Node::INVALID) && !t.proper() && t.root_index == 0
        && a.items@.len() == 0 && 1 <= a.vx_cap <= 0x1000_0000 implies #[trigger] t.sound(a) by { assert(t.fits(a, Map::<int, (int, int)>::empty())); }
}
impl TreeHistorySource {
    pub open spec fn sound(&self) -> bool {
        self.tree.sound(self.active_contexts) && -1 <= self.bit_index <= 7 && (self.bit_index >= 0 ==> w_size(self.tree.window) >= 1)
    }
}
'''
PATH = r'''
/// The way the oldest suffix takes at a record.
pub open spec fn path(t: Tree, i: int) -> Direction {
    let depth = recs(t.nodes)[i].depth as usize;
    toward(w_bit(t.window, w_add(t.window, w_start(t.window), (depth / 8) as usize), (7 - depth % 8) as usize))
}
pub proof fn not_i32()
    ensures forall|x: i32| #[trigger] !x == (-1 - x) as i32
{
    assert(forall|x: i32| #[trigger] !x == sub(sub(0i32, 1i32), x)) by (bit_vector);
}
'''
HELP = r"""
impl WindowIndex { /* x.into() of a position */ pub fn into(self) -> (r: NodeChild) ensures r.value == self.value, r.value >= 0 { NodeChild::from(self) } }
impl Bit { /* x.into() of a bit */ pub fn into(self) -> (r: Direction) ensures r == toward(self) { Direction::from(self) } }
fn vx_is(o: Option<Direction>, d: Direction) -> (r: bool) ensures r == (o == Some(d)) { match o { Some(x) => x == d, None => false } }
"""
EQ = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"
T = "src/history/tree/"
ARGS = r"((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)"
IX = r"((?:[^\[\]])+)"

NCF, ND, NI = T + "node_child.rs", T + "node.rs", T + "nodes.rs"
CHILD = {
    "is_window_index": dict(spec="ensures res == (self.value >= 0)"),
    "is_node_index": dict(spec="ensures res == (self.value < 0)"),
    "to_window_index": dict(spec="ensures self.value >= 0, res.value == self.value"),
    "to_node_index": dict(spec="ensures self.value < 0, res.value == target(*self), res.value <= 0x7fff_ffff", begin="proof { not_i32(); }\n"),
}
GET = dict(text_start=("value", "text_start as usize"), depth=(None, "depth as usize"))
RECORD = {
    "new": dict(spec="""ensures res.children == children, res.text_start == text_start.value, res.probability_estimator == probability_estimator, res.cost_trackers == cost_trackers,
    res.bits_runs == bits_runs, res.recent_bits == recent_bits, res.depth == depth, res.left_count == left_count, res.right_count == right_count""",
                begin="proof { assert(1u64 << 31 == 0x8000_0000u64) by (bit_vector); assert(1u64 << 16 == 0x1_0000u64) by (bit_vector); }\n"),
    "text_start": dict(spec="ensures res.value == self.text_start"),
    "probability_estimator": dict(spec="ensures res == self.probability_estimator"),
    "cost_trackers": dict(spec="ensures res == self.cost_trackers"),
    "depth": dict(spec="ensures res == self.depth"),
    "left_count": dict(spec="ensures res == self.left_count"),
    "right_count": dict(spec="ensures res == self.right_count"),
    "bits_runs": dict(spec="ensures res == self.bits_runs"),
    "recent_bits": dict(spec="ensures res == self.recent_bits"),
    "child": dict(spec="ensures res == self.children.0[side(direction)]"),
    "update_on_next_bit": dict(spec="""requires old(self).left_count <= 1000, old(self).right_count <= 1000
ensures *final(self) == seen(*old(self), bit, new_cost_trackers, *lut)"""),
}
TARGET = dict(
    name="tree", properties=("C19",), partial=True, prelude=PRELUDE,
    rewrites=[
        (r"(?s)if PRINT_DEBUG \{(?:[^{}]|\{[^{}]*\})*\}", "", "diagnostic output (PRINT_DEBUG is the constant false)"),
        (r"<'a>", "", "lifetime parameters"), (r"&'a ", "&'static ", "lifetime parameters (the tables outlive everything)"),
        (r"luts: &LookUpTables\) -> Tree\b", "luts: &'static LookUpTables) -> Tree", "(the same)"),
        (r"\.clone\(\)", "", "copies of plain data"),
        (r"(?s)\b((?:self|tree)\.nodes(?:_mut\(\))?)\[(\w+)\]\.children\[([^\[\]]+)\]\s*=(?!=)", r"*\1.index_mut(\2).children.index_mut(\3) =", "p[i].children[d] = e is *p.index_mut(i).children.index_mut(d) = e (IndexMut as an ordinary method)"),
        (r"(?s)\b((?:self|tree)\.nodes(?:_mut\(\))?)\[([\w.]+)\](?=\s*\.(?:text_start\s*=|update_on_next_bit))", r"\1.index_mut(\2)", "(the same, a field or a call)"),
        (r"\b((?:self|tree)\.nodes(?:\(\))?)\[([\w.]+)\]", r"(*\1.index(\2))", "p[i] is *p.index(i) (Index as an ordinary method)"),
        (r"\b(node|new_node)\.children\[([^\[\]]+)\]\s*=(?!=)", r"*\1.children.index_mut(\2) =", "(the same for children)"),
        (r"\b(node|new_node|self)\.children\[([^\[\]]+)\]", r"(*\1.children.index(\2))", "(the same for children)"),
        (r"self\.window\[(\w+)\]", r"self.window.byte(\1)", "(the same for the window)"),
        (r"&mut active_contexts\[(\w+)\]", r"&mut active_contexts.items[\1]", "(the same for the contexts)"),
        (r"!(\w*direction|bit)\b", r"\1.not()", "!d of a direction or bit is d.not()"),
        (r"(?s)\b(direction)\.fold\(\|\|\s*(\w+),\s*\|\|\s*(\w+)\)", r"(match \1 { Direction::Left => \2, Direction::Right => \3 })", "d.fold(|| a, || b) is the match on d"),
        (r"(?s)active_contexts\.items\.iter\(\)\s*\.find\(\|ctx\| ([^|]*?)\)\.is_some\(\)", r"{ let mut vx_f = false; let vx_n = active_contexts.items.len(); for vx_i in 0..vx_n { let ctx = &active_contexts.items[vx_i]; if \1 { vx_f = true; } } vx_f }", "v.iter().find(|x| c).is_some() is a loop over v"),
        (r"ctx\.direction_from_parent == Some\((\w+)\)", r"vx_is(ctx.direction_from_parent, \1)", "o == Some(d) by a match"),
        (r"for ctx in active_contexts\.items\.iter_mut\(\) \{", "let vx_n = active_contexts.items.len(); for vx_i in 0..vx_n { let ctx = &mut active_contexts.items[vx_i];", "a loop over iter_mut() by position"),
        (r"(?s)for \(order, ctx\) in active_contexts\.items\.iter\(\)\.enumerate\(\)\.rev\(\) \{", "let mut vx_k = active_contexts.items.len(); while vx_k > 0 { vx_k -= 1; let order = vx_k; let ctx = &active_contexts.items[order];", "a loop over enumerate().rev() counts down"),
        (r"(?s)for \(order, context\) in\s+active_contexts\.items\.iter\(\)\.enumerate\(\) \{", "let vx_n = active_contexts.items.len(); for order in 0..vx_n { let context = &active_contexts.items[order];", "a loop over enumerate() by position"),
        (r"for (\w+) in \((\w+)\.\.([^()]+)\)\.rev\(\) \{", r"let mut vx_k = \3; while vx_k > \2 { vx_k -= 1; let \1 = vx_k;", "a loop over (a..b).rev() counts down"),
        (r"while (\w+) == None", r"while \1.is_none()", "o == None is o.is_none()"),
        (r"(?s)context\.descend\(self, (.*?)self\.luts\.d_estimator_rates\(\)\);", r"let vx_l = self.luts; context.descend(self, \1vx_l.d_estimator_rates());", "an argument that only reads is evaluated first"),
        (r"self\.split_edge\(&context, ", "self.split_edge(context, ", "reborrow"),
        (r"\b(?:self|tree)\.split_\w+\([^;]*self\.luts\);", lambda m: "{ let vx_l = self.luts; " + m.group(0).replace("self.luts)", "vx_l)") + " }", "(as above)"),
        (r"collected_states\.items\(\)\.len\(\)", "collected_states.items.len()", "accessor"),
        (r"self\.items\.capacity\(\)", "self.vx_cap", "the capacity of the list of contexts stands as a field set by `new` (Vec::with_capacity allocates exactly that for it and it is never exceeded: trusted)"),
        (r"items: Vec::with_capacity\(max_order \+ 1\),", "items: Vec::with_capacity(max_order + 1), vx_cap: max_order + 1,", "(the same, set)"),
        (r"pub items: Vec<Context>,", "pub items: Vec<Context>, pub vx_cap: usize,", "(the same, declared)"),
        (r"let mut (parent_node_index_opt) = None;", r"let mut \1: Option<NodeIndex> = None;", "written types"),
        (r"let mut (node_direction_opt|leaf_direction_opt) = None;", r"let mut \1: Option<Direction> = None;", "written types"),
        (r"let mut (leaf_sibling_opt|last_node_index_opt) = None;", r"let mut \1: Option<NodeChild> = None;", "written types"),
        (r"^const ", "pub const ", "constants are visible to specifications"),
    ],
    units=[
        dict(kind="enum", file="src/bit/mod.rs", name="Bit", attr=EQ),
        dict(kind="enum", file=T + "direction.rs", name="Direction", attr=EQ),
        dict(kind="struct", file="src/history/window.rs", name="WindowIndex", attr=EQ),
        dict(kind="struct", file=NCF, name="NodeChild", attr=EQ),
        dict(kind="struct", file=NI, name="NodeIndex", attr=EQ),
        dict(kind="struct", file=NCF, name="NodeChildren", attr="#[derive(Clone, Copy)]\n"),
        dict(kind="struct", file="src/estimators/cost.rs", name="CostTracker", attr=EQ),
        dict(kind="struct", file=ND, name="CostTrackers", attr=EQ),
        dict(kind="struct", file="src/estimators/decelerating.rs", name="DeceleratingEstimator", attr=EQ),
        dict(kind="struct", file="src/history/state/bits_runs.rs", name="BitsRunsTracker", attr=EQ),
        dict(kind="struct", file="src/history/state/recent_bits.rs", name="RecentBitsHistory", attr=EQ),
        dict(kind="enum", file="src/history/mod.rs", name="ContextState", attr=EQ),
        dict(kind="struct", file="src/history/mod.rs", name="CollectedContextStates"),
        dict(kind="struct", file=ND, name="Node", attr="#[derive(Clone, Copy)]\n"),
        dict(kind="struct", file=T + "context.rs", name="Context", attr=EQ),
        dict(kind="struct", file=T + "context.rs", name="ActiveContexts"),
        dict(kind="enum", file=T + "mod.rs", name="TreeState", attr=EQ),
        dict(kind="struct", file=T + "mod.rs", name="Tree"),
        dict(kind="struct", file=T + "mod.rs", name="TreeHistorySource"),
        dict(kind="text", text="pub struct Log2D(pub i32);\npub struct Log2Lut {}"),
        dict(kind="impl", name="Log2Lut", emit="impl Log2Lut", file="src/lut/log2.rs", headers=["impl Log2Lut"], only=["INDEX_BITS"], fns={}),
        dict(kind="impl", name="Log2D", emit="impl Log2D", file="src/fixed_point/types.rs", headers=["impl FixedPoint for Log2D"], only=["FRACTIONAL_BITS"], fns={}),
        dict(kind="impl", name="CostTracker", emit="impl CostTracker", file="src/estimators/cost.rs", headers=["impl CostTracker"], only=["DECAY_SCALE", "FRACTIONAL_BITS", "INITIAL"], fns={}),
        dict(kind="text", text=STATES + SPECS + PATH + HELP),
        dict(kind="impl", name="CostTrackers", emit="impl CostTrackers", file=ND, headers=["impl CostTrackers"], only=["new", "DEFAULT"],
             fns={"new": dict(spec="ensures res.stationary == stationary, res.non_stationary == non_stationary")}),
        dict(kind="impl", name="DeceleratingEstimator", emit="impl DeceleratingEstimator", file="src/estimators/decelerating.rs", headers=["impl DeceleratingEstimator"], only=["MAX_COUNT", "INVALID"], fns={}),
        dict(kind="impl", name="BitsRunsTracker", emit="impl BitsRunsTracker", file="src/history/state/bits_runs.rs", headers=["impl BitsRunsTracker"], only=["NEW"], fns={}),
        dict(kind="impl", name="ContextState", emit="impl ContextState", file="src/history/mod.rs", headers=["impl ContextState"], only=["MAX_OCCURRENCE_COUNT"], fns={}),
        dict(kind="impl", name="WindowIndex", emit="impl WindowIndex", file="src/history/window.rs", headers=["impl WindowIndex"],
             fns={"new": dict(spec="ensures res.value == value"), "raw": dict(spec="ensures res == self.value")}),
        dict(kind="impl", name="NodeIndex", emit="impl NodeIndex", file=NI, headers=["impl NodeIndex"],
             fns={"new": dict(spec="ensures res.value == value"), "raw": dict(spec="ensures res == self.value"),
                  "is_root": dict(spec="ensures res == (self.value < 1)")}),
        dict(kind="impl", name="Direction", emit="impl Direction", file=T + "direction.rs", headers=["impl From<Bit> for Direction"],
             fns={"from": dict(spec="ensures res == toward(value)")}),
        dict(kind="impl", name="Bit", emit="impl Bit", file="src/bit/mod.rs", headers=["impl Not for Bit"], skip=["Output"],
             fns={"not": dict(spec="ensures res == (if self is Zero { Bit::One } else { Bit::Zero })")}),
        dict(kind="impl", name="Direction", emit="impl Direction", file=T + "direction.rs", headers=["impl ops::Not for Direction"], skip=["Output"],
             fns={"not": dict(spec="ensures side(res) == 1 - side(self)")}),
        dict(kind="impl", name="NodeChild", emit="impl NodeChild", file=NCF, headers=["impl NodeChild"], skip=["is_valid"], fns=CHILD),
        dict(kind="impl", name="NodeChild", emit="impl NodeChild", file=NCF, headers=["impl From<WindowIndex> for NodeChild"],
             fns={"from": dict(spec="ensures res.value == window_index.value, res.value >= 0")}),
        dict(kind="impl", name="NodeChildren", emit="impl NodeChildren", file=NCF, headers=["impl NodeChildren"], only=["INVALID", "new", "items", "items_mut"],
             fns={"new": dict(spec="ensures res.0 == children"), "items": dict(spec="ensures *res == self.0"), "items_mut": dict(spec="ensures *res == old(self).0, final(self).0 == *final(res)")}),
        dict(kind="impl", name="NodeChildren", emit="impl NodeChildren", file=NCF, headers=["impl ops::Index<Direction> for NodeChildren"], skip=["Output"],
             fns={"index": dict(spec="ensures *res == self.0[side(index)]")}),
        dict(kind="impl", name="NodeChildren", emit="impl NodeChildren", file=NCF, headers=["impl ops::IndexMut<Direction> for NodeChildren"],
             fns={"index_mut": dict(spec="ensures *res == old(self).0[side(index)], final(self).0@ == old(self).0@.update(side(index), *final(res))")}),
        dict(kind="impl", name="Node", emit="impl Node", file=ND, headers=["impl Node"], skip=["is_valid"], fns=RECORD),
        dict(kind="impl", name="Context", emit="impl Context", file=T + "context.rs", headers=["impl Context"], fns=CTX),
        dict(kind="impl", name="ActiveContexts", emit="impl ActiveContexts", file=T + "context.rs", headers=["impl ActiveContexts"], only=list(ACT), fns=ACT),
        dict(kind="impl", name="Tree", emit="impl Tree", file=T + "mod.rs", headers=["impl<'a> Tree<'a>"], only=list(TREE), fns=TREE),
        dict(kind="text", text=HIST),
        dict(kind="impl", name="TreeHistorySource", emit="impl TreeHistorySource", file=T + "mod.rs", headers=["impl<'a> TreeHistorySource<'a>"], only=["new_special"], fns={"new_special": SRC["new_special"]}),
        dict(kind="impl", name="TreeHistorySource", emit="impl TreeHistorySource", file=T + "mod.rs", headers=["impl<'a> HistorySource<'a> for TreeHistorySource<'a>"],
             fns={k: v for k, v in SRC.items() if k != "new_special"}),
    ],
)
