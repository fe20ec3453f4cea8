//! C15: node pool.
use crate::nd::*;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::direction::Direction;
use demixer::history::tree::node::{CostTrackers, Node};
use demixer::history::tree::node_child::{NodeChild, NodeChildren};
use demixer::history::tree::nodes::{NodeIndex, Nodes};
use demixer::history::window::WindowIndex;

/// Slots in the symbolic pool (capacity one more).
const MAX: usize = 4;

/// A live record, identified by its text position and children.
fn live(tag: usize, l: usize, r: usize) -> Node {
    Node::new(WindowIndex::new(tag), DeceleratingEstimator::INVALID, 1, CostTrackers::DEFAULT,
              BitsRunsTracker::NEW, 1, 1, RecentBitsHistory::new_unchecked(2),
              NodeChildren::new([NodeChild::from(WindowIndex::new(l)),
                                 NodeChild::from(WindowIndex::new(r))]))
}

type Slot = (usize, i32, i32);
fn slot(n: &Node) -> Slot {
    (n.text_start().raw(), n.child(Direction::Left).verif_raw(), n.child(Direction::Right).verif_raw())
}

/// The pool as an abstract value: which slots are free, in the order in which
/// they will be handed out.  `None` when the representation is broken.
struct View { len: usize, free: [usize; MAX + 1], n: usize }
fn view(p: &Nodes) -> Option<View> {
    let (items, head, count) = p.verif_parts();
    let len = items.len();
    if len < Nodes::NUM_ROOTS || len > MAX + 1 || count >= len { return None }
    let mut v = View { len, free: [0; MAX + 1], n: 0 };
    let mut at = head;
    while let Some(i) = at {
        let i = i.raw();
        // every free slot: in range, no root, seen once
        if i < Nodes::NUM_ROOTS || i >= len || v.n == count { return None }
        let mut k = 0;
        while k < v.n { if v.free[k] == i { return None } k += 1; }
        v.free[v.n] = i;
        v.n += 1;
        if items[i].children[Direction::Left].is_valid() { return None }
        let next = items[i].children[Direction::Right];
        at = if next.is_valid() {
            if !next.is_node_index() { return None }
            Some(next.to_node_index())
        } else { None };
    }
    if v.n != count { return None }
    Some(v)
}
fn is_free(v: &View, i: usize) -> bool {
    let mut k = 0;
    let mut r = false;
    while k < v.n { r |= v.free[k] == i; k += 1; }
    r
}

/// Any pool with up to MAX slots satisfying the representation invariant.
fn any_pool(used: &mut usize) -> (Nodes, [Slot; MAX + 1]) {
    let len: usize = any_in(1, MAX);
    let n: usize = any_in(0, len - 1);
    // links of the free list
    let mut free = [0usize; MAX];
    let mut i = 0;
    while i < MAX {
        free[i] = any_in(1, MAX);
        i += 1;
    }
    i = 0;
    while i < n {
        assume(free[i] < len);
        let mut k = 0;
        while k < i { assume(free[k] != free[i]); k += 1; }
        i += 1;
    }
    let cap: usize = any_in(len, MAX + 1);
    let mut items: Vec<Node> = Vec::with_capacity(MAX + 1);
    let mut slots = [(0, 0, 0); MAX + 1];
    i = 0;
    while i < len {
        let mut node = live(any_in(0, 0x7fff_ffff), any_in(0, 0x7fff_ffff), any_in(0, 0x7fff_ffff));
        let mut k = 0;
        while k < n {
            if free[k] == i {
                node.children[Direction::Left] = NodeChild::INVALID;
                node.children[Direction::Right] = if k + 1 < n {
                    NodeChild::from(NodeIndex::new(free[k + 1]))
                } else { NodeChild::INVALID };
            }
            k += 1;
        }
        slots[i] = slot(&node);
        items.push(node);
        i += 1;
    }
    let _ = cap;
    *used = len;
    let head = if n > 0 { Some(NodeIndex::new(free[0])) } else { None };
    (Nodes::verif_from_parts(items, head, n), slots)
}

fn unchanged(p: &Nodes, slots: &[Slot; MAX + 1], v: &View, except: usize) -> bool {
    let (items, _, _) = p.verif_parts();
    let mut ok = true;
    let mut i = 0;
    while i < v.len {
        if i != except && !is_free(v, i) && i < items.len() { ok &= slot(&items[i]) == slots[i]; }
        if i >= items.len() { ok = false }
        i += 1;
    }
    ok
}

harnesses! {
    //@@ of: history::tree::nodes::Nodes::{new,live_nodes_count}
    fn c15_new() {
        let p = Nodes::new(5);
        let v = view(&p);
        reach!();
        assert!(v.is_some() && v.unwrap().n == 0, "new: representation");
        assert!(p.live_nodes_count() == 0, "new: no live node");
    }
    #[kani::should_panic]
    fn c15_new_rejects() {
        rejects(|| Nodes::new(0));
    }
    //@@ of: history::tree::nodes::Nodes::{add_node,update_node,live_nodes_count}
    //@ bound: pools of up to 4 slots, every free list; (any size: Verus)
    #[kani::unwind(7)]
    fn c15_add() {
        let mut len = 0;
        let (mut p, slots) = any_pool(&mut len);
        let v0 = view(&p).unwrap();
        let live0 = p.live_nodes_count();
        assert!(live0 == len - v0.n, "live_nodes_count: allocated less deleted");
        let (t, l, r) = (any_in(0usize, 0x7fff_ffff), any_in(0usize, 0x7fff_ffff), any_in(0usize, 0x7fff_ffff));
        let node = live(t, l, r);
        let want = slot(&node);
        reach!();
        reach!(v0.n > 1, "reuses a slot");
        reach!(v0.n == 0, "grows");
        let c = p.add_node(node);
        assert!(c.is_valid() && c.is_node_index(), "add: returns a node link");
        let i = c.to_node_index().raw();
        assert!(i >= Nodes::NUM_ROOTS, "add: no root");
        assert!(i >= len || is_free(&v0, i), "add: not in use before");
        let v1 = view(&p);
        assert!(v1.is_some(), "add: representation");
        let v1 = v1.unwrap();
        assert!(!is_free(&v1, i) && i < v1.len, "add: in use afterwards");
        assert!(slot(&p[NodeIndex::new(i)]) == want, "add: holds the record");
        assert!(v1.len - v1.n == len - v0.n + 1, "add: one more in use");
        assert!(p.live_nodes_count() == live0 + 1, "add: live count");
        let mut k = 1;
        while k < len {
            if k != i { assert!(is_free(&v1, k) == is_free(&v0, k), "add: other slots keep their status"); }
            k += 1;
        }
        assert!(unchanged(&p, &slots, &v0, i), "add: other live nodes unchanged");
    }
    #[kani::unwind(7)]
    #[kani::should_panic]
    fn c15_add_full() {
        // no free slot and no capacity left: refused, not overwritten
        let mut items = Vec::with_capacity(3);
        let mut i = 0;
        while i < 3 { items.push(live(any_in(0, 9), any_in(0, 9), any_in(0, 9))); i += 1; }
        assume(items.capacity() == 3);
        let mut p = Nodes::verif_from_parts(items, None, 0);
        rejects(|| p.add_node(live(1, 2, 3)));
    }
    //@@ of: history::tree::nodes::Nodes::{delete_node,live_nodes_count}
    //@ bound: pools of up to 4 slots, every free list; (any size: Verus)
    #[kani::unwind(7)]
    fn c15_delete() {
        let mut len = 0;
        let (mut p, slots) = any_pool(&mut len);
        let v0 = view(&p).unwrap();
        let live0 = p.live_nodes_count();
        let i: usize = any_in(1, MAX);
        assume(i < len && !is_free(&v0, i));
        reach!();
        p.delete_node(NodeIndex::new(i));
        let v1 = view(&p);
        assert!(v1.is_some(), "delete: representation");
        let v1 = v1.unwrap();
        assert!(is_free(&v1, i), "delete: available again");
        assert!(v1.len == len && v1.n == v0.n + 1, "delete: one less in use");
        assert!(p.live_nodes_count() == live0 - 1, "delete: live count");
        let mut k = 1;
        while k < len {
            if k != i { assert!(is_free(&v1, k) == is_free(&v0, k), "delete: other slots keep their status"); }
            k += 1;
        }
        assert!(unchanged(&p, &slots, &v0, i), "delete: other live nodes unchanged");
        // and it is what the next allocation may take
        let c = p.add_node(live(7, 7, 7)).to_node_index().raw();
        assert!(c == i || is_free(&v0, c), "delete then add: a free slot");
    }
    //@@ of: history::tree::nodes::Nodes::{update_node,index,index_mut}
    //@ bound: pools of up to 4 slots, every free list; (any size: Verus)
    #[kani::unwind(7)]
    fn c15_update() {
        let mut len = 0;
        let (mut p, slots) = any_pool(&mut len);
        let v0 = view(&p).unwrap();
        let i: usize = any_in(0, MAX);
        assume(i < len && !is_free(&v0, i));
        let node = live(any_in(0, 0x7fff_ffff), any_in(0, 0x7fff_ffff), any_in(0, 0x7fff_ffff));
        let want = slot(&node);
        reach!();
        assert!(slot(&p[NodeIndex::new(i)]) == slots[i], "index: reads its slot");
        if any::<bool>() { p.update_node(NodeIndex::new(i), node); } else { p[NodeIndex::new(i)] = node; }
        let v1 = view(&p);
        assert!(v1.is_some() && v1.unwrap().n == v0.n, "update: representation");
        assert!(slot(&p[NodeIndex::new(i)]) == want, "update: holds the record");
        assert!(unchanged(&p, &slots, &v0, i), "update: other live nodes unchanged");
    }
    #[kani::should_panic]
    #[kani::unwind(7)]
    fn c15_dead_root() {
        let p = Nodes::new(4);
        rejects(|| p[NodeIndex::new(0)].depth());
    }
}

evals! {
    //@ of: history::tree::nodes::Nodes::{new,add_node,update_node,delete_node,live_nodes_count,index}
    //@ bound: every sequence of 9 operations over a pool of 6 slots, and 2000 random sequences of 4000 operations over pools of up to 300
    //@ rule: each sequence of add / delete one of the live nodes / update one, compared with a model set
    fn c15_sequences() {
        use std::collections::BTreeMap;
        struct M { p: Nodes, live: BTreeMap<usize, Slot>, order: Vec<usize>, cap: usize, added: usize, removed: usize, tag: usize }
        impl M {
            fn new(cap: usize) -> M {
                let mut p = Nodes::new(cap);
                p.update_node(NodeIndex::new(0), live(0, 1, 2));
                M { p, live: BTreeMap::new(), order: vec![], cap, added: 0, removed: 0, tag: 100 }
            }
            fn fresh(&mut self) -> Node { self.tag += 3; live(self.tag, self.tag + 1, self.tag + 2) }
            fn add(&mut self) -> Result<(), String> {
                if self.live.len() + 1 == self.cap { return Ok(()) }
                let n = self.fresh();
                let s = slot(&n);
                let c = self.p.add_node(n);
                ensure!(c.is_node_index() && c.is_valid(), "add returned no node link");
                let i = c.to_node_index().raw();
                ensure!(i >= Nodes::NUM_ROOTS && i < self.cap, "add returned slot {}", i);
                ensure!(!self.live.contains_key(&i), "slot {} handed out while in use", i);
                self.live.insert(i, s);
                self.order.push(i);
                self.added += 1;
                Ok(())
            }
            fn delete(&mut self, k: usize) {
                if self.order.is_empty() { return }
                let k = k % self.order.len();
                let i = self.order.remove(k);
                self.live.remove(&i);
                self.removed += 1;
                self.p.delete_node(NodeIndex::new(i));
            }
            fn update(&mut self, k: usize) {
                if self.order.is_empty() { return }
                let i = self.order[k % self.order.len()];
                let n = self.fresh();
                self.live.insert(i, slot(&n));
                self.p.update_node(NodeIndex::new(i), n);
            }
            fn check(&self, full: bool) -> Result<(), String> {
                ensure!(self.p.live_nodes_count() == self.added - self.removed + 1,
                        "live_nodes_count {} with {} added, {} deleted", self.p.live_nodes_count(), self.added, self.removed);
                if full {
                    for (&i, s) in &self.live {
                        ensure!(&slot(&self.p[NodeIndex::new(i)]) == s, "live node {} changed", i);
                    }
                    ensure!(slot(&self.p[NodeIndex::new(0)]).0 == 0, "root changed");
                }
                Ok(())
            }
        }
        let base = 7u64;
        let a = eval::par(base.pow(9), |case| {
            let mut m = M::new(6);
            let mut c = case;
            for step in 0..9 {
                match c % base { 0..=2 => m.add()?, 3 => m.delete(0), 4 => m.delete(usize::MAX / 2), 5 => { m.delete(1) }, _ => m.update(step) }
                c /= base;
                m.check(true).map_err(|e| format!("operations {} (base 7): {}", case, e))?;
            }
            Ok(())
        })?;
        let seed = eval::seed();
        let b = eval::par(if eval::thorough() { 20000 } else { 2000 }, |i| {
            let mut r = eval::Rng(seed.wrapping_mul(7919).wrapping_add(i));
            let mut m = M::new(2 + r.below(299) as usize);
            let bias = 1 + r.below(8);
            for step in 0..4000 {
                let x = r.below(10);
                if x < bias { m.add()? } else if x < 9 { m.delete(r.next() as usize / 2) } else { m.update(r.next() as usize / 2) }
                m.check(step % 97 == 0).map_err(|e| format!("random sequence {} step {}: {}", i, step, e))?;
            }
            m.check(true)
        })?;
        Ok(a.merge(b))
    }
}
