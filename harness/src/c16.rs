//! C16: packed tree links and node records.
use crate::nd::*;
use crate::common::*;
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::FixedPoint;
use demixer::history::ContextState;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::direction::Direction;
use demixer::history::tree::node::{CostTrackers, Node};
use demixer::history::tree::node_child::{NodeChild, NodeChildren};
use demixer::history::tree::nodes::{NodeIndex, Nodes};
use demixer::history::window::WindowIndex;

const TOP: usize = 0x7fff_ffff;

fn any_child() -> NodeChild { NodeChild::verif_from_raw(any()) }
fn any_direction() -> Direction { if any::<bool>() { Direction::Left } else { Direction::Right } }

/// Everything a record holds, for frame conditions.
#[derive(PartialEq, Eq, Clone, Copy)]
struct View {
    l: i32, r: i32, text: usize, est: u32, s: u16, n: u16, runs: u32, recent: u16,
    depth: usize, lc: u16, rc: u16,
}
fn view(n: &Node) -> View {
    View {
        l: n.child(Direction::Left).verif_raw(), r: n.child(Direction::Right).verif_raw(),
        text: n.text_start().raw(), est: n.probability_estimator().verif_raw(),
        s: n.cost_trackers().stationary().raw(), n: n.cost_trackers().non_stationary().raw(),
        runs: n.bits_runs().verif_raw(), recent: n.recent_bits().verif_raw(),
        depth: n.depth(), lc: n.left_count(), rc: n.right_count(),
    }
}
fn any_trackers() -> CostTrackers {
    CostTrackers::new(CostTracker::new(any()), CostTracker::new(any()))
}
/// Any record that can be constructed.
fn any_node() -> Node {
    let text: usize = any_in(0, TOP);
    let depth: usize = any_in(0, 0xffff);
    let recent: u16 = any();
    assume(recent != 0);
    Node::new(WindowIndex::new(text), DeceleratingEstimator::verif_from_raw(any()), depth,
              any_trackers(), BitsRunsTracker::verif_from_raw(any()), any(), any(),
              RecentBitsHistory::new_unchecked(recent),
              NodeChildren::new([any_child(), any_child()]))
}

harnesses! {
    //@@ of: history::tree::node_child::NodeChild::{from,is_valid,is_window_index,is_node_index,to_window_index,to_node_index}
    fn c16_window_link() {
        let w: usize = any_in(0, TOP);
        reach!();
        let c = NodeChild::from(WindowIndex::new(w));
        assert!(c.is_window_index() && !c.is_node_index() && c.is_valid(), "window link: kind");
        assert!(c.to_window_index().raw() == w, "window link: round trip");
        assert!(c != NodeChild::INVALID, "window link: not the invalid link");
    }
    fn c16_node_link() {
        let n: usize = any_in(Nodes::NUM_ROOTS, TOP);
        reach!();
        let c = NodeChild::from(NodeIndex::new(n));
        assert!(c.is_node_index() && !c.is_window_index() && c.is_valid(), "node link: kind");
        assert!(c.to_node_index().raw() == n, "node link: round trip");
        assert!(c != NodeChild::INVALID, "node link: not the invalid link");
        let w: usize = any_in(0, TOP);
        assert!(c != NodeChild::from(WindowIndex::new(w)), "links: kinds never equal");
        let m: usize = any_in(Nodes::NUM_ROOTS, TOP);
        assert!((m == n) == (c == NodeChild::from(NodeIndex::new(m))), "links: injective");
        let v: usize = any_in(0, TOP);
        assert!((v == w) == (NodeChild::from(WindowIndex::new(v)) == NodeChild::from(WindowIndex::new(w))),
                "links: injective");
    }
    fn c16_any_link() {
        let c = any_child();
        reach!();
        assert!(c.is_window_index() != c.is_node_index(), "link: exactly one kind");
        if c.is_valid() && c.is_node_index() {
            assert!(c.to_node_index().raw() >= Nodes::NUM_ROOTS, "link: roots are no children");
            assert!(!c.to_node_index().is_root(), "link: roots are no children");
            assert!(NodeChild::from(c.to_node_index()) == c, "link: round trip");
        }
        if c.is_window_index() {
            assert!(c.is_valid() && NodeChild::from(c.to_window_index()) == c, "link: round trip");
        }
        assert!(!NodeChild::INVALID.is_valid(), "INVALID is invalid");
    }
    #[kani::should_panic]
    fn c16_window_too_large() {
        let w: usize = any();
        assume(w > TOP);
        rejects(|| NodeChild::from(WindowIndex::new(w)));
    }
    #[kani::should_panic]
    fn c16_node_out_of_range() {
        let n: usize = any();
        assume(n > TOP || n < Nodes::NUM_ROOTS);
        rejects(|| NodeChild::from(NodeIndex::new(n)));
    }
    #[kani::should_panic]
    fn c16_window_as_node() {
        let w: usize = any_in(0, TOP);
        rejects(|| NodeChild::from(WindowIndex::new(w)).to_node_index());
    }
    #[kani::should_panic]
    fn c16_node_as_window() {
        let n: usize = any_in(Nodes::NUM_ROOTS, TOP);
        rejects(|| NodeChild::from(NodeIndex::new(n)).to_window_index());
    }
    //@@ of: history::tree::node_child::NodeChildren::{new,items,index,index_mut}, history::tree::direction::Direction::{from,not,fold}
    fn c16_children() {
        let (a, b, x) = (any_child(), any_child(), any_child());
        let mut c = NodeChildren::new([a, b]);
        reach!();
        assert!(c[Direction::Left] == a && c[Direction::Right] == b, "children: sides");
        assert!(c.items()[0] == a && c.items()[1] == b, "children: items");
        let d = any_direction();
        c[d] = x;
        let (l, r) = (c[Direction::Left], c[Direction::Right]);
        if d == Direction::Left { assert!(l == x && r == b, "children: frame") }
        else { assert!(l == a && r == x, "children: frame") }
        assert!(!NodeChildren::INVALID[Direction::Left].is_valid()
            && !NodeChildren::INVALID[Direction::Right].is_valid(), "INVALID children");
        assert!(Direction::from(Bit::Zero) == Direction::Left
            && Direction::from(Bit::One) == Direction::Right
            && !Direction::Left == Direction::Right && !Direction::Right == Direction::Left,
            "direction: of bits");
        assert!(d.fold(|| 0, || 1) == d as i32, "direction: fold");
    }
    //@@ of: history::tree::node::Node::{new,is_valid,text_start,probability_estimator,cost_trackers,depth,left_count,right_count,bits_runs,recent_bits,child}, history::tree::node::CostTrackers::{new,stationary,non_stationary}
    fn c16_record() {
        let text: usize = any_in(0, TOP);
        let depth: usize = any_in(0, 0xffff);
        let (e, s, n, r): (u32, u16, u16, u32) = (any(), any(), any(), any());
        let (lc, rc): (u16, u16) = (any(), any());
        let recent: u16 = any();
        assume(recent != 0);
        let (a, b) = (any_child(), any_child());
        reach!();
        let node = Node::new(
            WindowIndex::new(text), DeceleratingEstimator::verif_from_raw(e), depth,
            CostTrackers::new(CostTracker::new(s), CostTracker::new(n)),
            BitsRunsTracker::verif_from_raw(r), lc, rc,
            RecentBitsHistory::new_unchecked(recent), NodeChildren::new([a, b]));
        assert!(view(&node) == View { l: a.verif_raw(), r: b.verif_raw(), text, est: e, s, n,
                                      runs: r, recent, depth, lc, rc }, "record: every field");
        assert!(node.is_valid() == (a != NodeChild::INVALID && b != NodeChild::INVALID),
                "record: valid");
        assert!(!Node::INVALID.is_valid(), "INVALID record");
        let copy = node.clone();
        assert!(view(&copy) == view(&node), "record: clone");
    }
    #[kani::should_panic]
    fn c16_record_rejects() {
        let text: usize = any();
        let depth: usize = any();
        let recent: u16 = any();
        assume(text > TOP || depth > 0xffff || recent == 0);
        rejects(|| Node::new(
            WindowIndex::new(text), DeceleratingEstimator::verif_from_raw(0), depth,
            CostTrackers::DEFAULT, BitsRunsTracker::NEW, 0, 0,
            RecentBitsHistory::new_unchecked(recent), NodeChildren::INVALID));
    }
    //@@ of: history::tree::node::Node::update_on_next_bit
    #[kani::solver(kissat)]
    fn c16_update() {
        let mut node = any_node();
        let v = view(&node);
        const CAP: u16 = ContextState::MAX_OCCURRENCE_COUNT;
        assume(v.lc <= CAP && v.rc <= CAP);
        // one symbolic rate: the one the estimator looks up
        let est = DeceleratingEstimator::verif_from_raw(v.est);
        let n = est.usage_count() as usize;
        assume(n <= 1000 && v.est >> 10 > 0);
        let rate: u32 = any();
        assume(rate < ONE31);
        let lut = rates_with(n, rate);
        let b = any_bit();
        let (s, n): (u16, u16) = (any(), any());
        reach!();
        node.update_on_next_bit(b, CostTrackers::new(CostTracker::new(s), CostTracker::new(n)), &lut);
        let u = view(&node);
        let mut e = est;
        e.update(b, &lut);
        let next = |c: u16| if c < CAP { c + 1 } else { CAP };
        let w = View {
            s, n, est: e.verif_raw(),
            runs: BitsRunsTracker::verif_from_raw(v.runs).updated(b).verif_raw(),
            recent: RecentBitsHistory::new_unchecked(v.recent).updated(b).verif_raw(),
            lc: if b.is_1() { v.lc } else { next(v.lc) },
            rc: if b.is_1() { next(v.rc) } else { v.rc },
            ..v
        };
        assert!(u.lc == w.lc && u.rc == w.rc, "update: counts");
        assert!(u.est == w.est, "update: estimator");
        assert!(u.runs == w.runs && u.recent == w.recent, "update: bit history");
        assert!(u.s == w.s && u.n == w.n, "update: cost trackers");
        assert!(u == w, "update: nothing else");
    }
}

evals! {}
