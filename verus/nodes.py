"""C15: the node pool (src/history/tree/{nodes,node_child,node}.rs)."""

PRELUDE = r'''
#![feature(allocator_api)]
use vstd::prelude::*;
verus! {

// ---- payload of a node record: opaque here --------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct DeceleratingEstimator { pub v: u32 }
impl DeceleratingEstimator { pub const INVALID: Self = DeceleratingEstimator { v: 0 }; }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct CostTrackers { pub v: u32 }
impl CostTrackers { pub const DEFAULT: Self = CostTrackers { v: 0 }; }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct BitsRunsTracker { pub v: u32 }
impl BitsRunsTracker { pub const NEW: Self = BitsRunsTracker { v: 0 }; }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct RecentBitsHistory { pub v: u32 }
impl RecentBitsHistory { pub const INVALID: Self = RecentBitsHistory { v: 0 }; }

// ---- trusted contract of the allocator ------------------------------------
/// What a vector can hold before it reallocates.
pub uninterp spec fn room<T, A: core::alloc::Allocator>(v: Vec<T, A>) -> nat;
pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::capacity ](v: &Vec<T, A>) -> (c: usize)
    ensures c == room(*v);

// ---- vocabulary of the contracts ------------------------------------------
pub open spec fn link(i: int) -> NodeChild { NodeChild { value: (-1 - i) as i32 } }
pub open spec fn none() -> NodeChild { NodeChild { value: (-1) as i32 } }

impl Nodes {
    /// Invariant: `free` lists the slots that are not in use, in the order in
    /// which they will be handed out; the list is threaded through them.
    pub open spec fn inv(&self, free: Seq<int>) -> bool {
        &&& 1 <= self.items@.len() <= 0x7fff_ffff
        &&& free.len() == self.removed_nodes_count
        &&& self.last_deleted_node_idx_opt == (if free.len() == 0 { None } else { Some(NodeIndex { value: free[0] as usize }) })
        &&& forall|k: int| 0 <= k < free.len() ==> 1 <= #[trigger] free[k] < self.items@.len()
        &&& forall|j: int, k: int| 0 <= j < k < free.len() ==> free[j] != free[k]
        &&& forall|k: int| 0 <= k < free.len() ==> self.items@[#[trigger] free[k]].children.0[0] == none()
        &&& forall|k: int| 0 <= k < free.len() ==> self.items@[#[trigger] free[k]].children.0[1] == if k + 1 < free.len() { link(free[k + 1]) } else { none() }
    }
    pub open spec fn in_use(&self, free: Seq<int>, i: int) -> bool { 0 <= i < self.items@.len() && !free.contains(i) }
}

pub open spec fn node_valid(n: Node) -> bool { n.children.0[0] != none() && n.children.0[1] != none() }

pub proof fn not_i32()
    ensures forall|x: i32| #[trigger] !x == (-1 - x) as i32
{
    assert(forall|x: i32| #[trigger] !x == sub(sub(0i32, 1i32), x)) by (bit_vector);
}
'''

NC = {
    "is_valid": dict(spec="ensures res == (self.value != -1)", begin="proof { not_i32(); }\n"),
    "is_window_index": dict(spec="ensures res == (self.value >= 0)"),
    "is_node_index": dict(spec="ensures res == (self.value < 0)"),
    "to_node_index": dict(spec="requires self.value < 0\nensures res.value == -1 - self.value", begin="proof { not_i32(); }\n"),
}
NODES = {
    "new": dict(
        spec="""requires 1 <= nodes_limit
ensures res.inv(Seq::empty()), res.items@.len() == Self::NUM_ROOTS, forall|i: int| 0 <= i < res.items@.len() ==> !node_valid(res.items@[i])""",
        loops=[dict(index="vx_i", after="proof { not_i32(); }\n", inv="""
invariant items@.len() == vx_i, vx_i <= Nodes::NUM_ROOTS, forall|i: int| 0 <= i < vx_i ==> items@[i] == Node::INVALID,
""")]),
    "add_node": dict(
        spec="""requires exists|f: Seq<int>| old(self).inv(f), old(self).removed_nodes_count == 0 ==> room(old(self).items) > old(self).items@.len() && old(self).items@.len() < 0x7fff_ffff
ensures
    // a free slot first, else a new one; nothing else changes
    forall|free: Seq<int>| #[trigger] old(self).inv(free) && free.len() > 0 ==>
        res == link(free[0]) && final(self).items@ == old(self).items@.update(free[0], node) && final(self).inv(free.drop_first()),
    forall|free: Seq<int>| #[trigger] old(self).inv(free) && free.len() == 0 ==>
        res == link(old(self).items@.len() as int) && final(self).items@ == old(self).items@.push(node) && final(self).inv(free)""",
        begin="proof { not_i32(); }\n"),
    "update_node": dict(
        spec="""requires node_index.value < old(self).items@.len()
ensures final(self).items@ == old(self).items@.update(node_index.value as int, new_node),
    final(self).last_deleted_node_idx_opt == old(self).last_deleted_node_idx_opt, final(self).removed_nodes_count == old(self).removed_nodes_count,
    forall|free: Seq<int>| #[trigger] old(self).inv(free) && !free.contains(node_index.value as int) ==> final(self).inv(free)"""),
    "delete_node": dict(
        spec="""requires exists|f: Seq<int>| old(self).inv(f) && old(self).in_use(f, node_index.value as int), node_index.value >= Self::NUM_ROOTS
ensures
    final(self).items@.len() == old(self).items@.len(),
    forall|i: int| 0 <= i < old(self).items@.len() && i != node_index.value ==> final(self).items@[i] == old(self).items@[i],
    forall|free: Seq<int>| #[trigger] old(self).inv(free) && old(self).in_use(free, node_index.value as int) ==>
        final(self).inv(Seq::empty().push(node_index.value as int) + free)""",
        begin="""proof { not_i32();
    let f = choose|f: Seq<int>| old(self).inv(f) && old(self).in_use(f, node_index.value as int);
    pigeonhole(f, self.items@.len() as int); }
""",
        end="""proof {
    assert forall|free: Seq<int>| #[trigger] old(self).inv(free) && old(self).in_use(free, node_index.value as int)
        implies self.inv(Seq::empty().push(node_index.value as int) + free) by { freed(*old(self), *self, node_index.value as int, free); }
}
"""),
    "live_nodes_count": dict(
        spec="""requires exists|f: Seq<int>| self.inv(f)
ensures forall|free: Seq<int>| #[trigger] self.inv(free) ==> res == if node_valid(self.items@[0]) { self.items@.len() - free.len() } else { 0 }""",
        begin="""proof {
    let f = choose|f: Seq<int>| self.inv(f);
    pigeonhole(f, self.items@.len() as int); }
"""),
}

POST = r'''
/// Putting a slot in front of the free list.
pub proof fn freed(a: Nodes, b: Nodes, i: int, free: Seq<int>)
    requires a.inv(free), a.in_use(free, i), i >= 1, b.items@ == a.items@.update(i, b.items@[i]),
        b.items@[i].children.0[0] == none(), b.items@[i].children.0[1] == (if free.len() == 0 { none() } else { link(free[0]) }),
        b.last_deleted_node_idx_opt == Some(NodeIndex { value: i as usize }), b.removed_nodes_count == a.removed_nodes_count + 1
    ensures b.inv(Seq::empty().push(i) + free)
{
    let g = Seq::empty().push(i) + free;
    assert(g[0] == i && g.len() == free.len() + 1);
    assert forall|k: int| 0 < k < g.len() implies g[k] == free[k - 1] && g[k] != i by { assert(free.contains(free[k - 1])); }
    assert forall|k: int| 0 <= k < g.len() implies 1 <= #[trigger] g[k] < b.items@.len() by { if k > 0 { assert(g[k] == free[k - 1]); } }
    assert forall|j: int, k: int| 0 <= j < k < g.len() implies g[j] != g[k] by { if j > 0 { assert(g[j] == free[j - 1] && g[k] == free[k - 1]); } }
    assert forall|k: int| 0 <= k < g.len() implies b.items@[#[trigger] g[k]].children.0[0] == none() by { if k > 0 { assert(b.items@[g[k]] == a.items@[free[k - 1]]); } }
    assert forall|k: int| 0 <= k < g.len() implies b.items@[#[trigger] g[k]].children.0[1] == if k + 1 < g.len() { link(g[k + 1]) } else { none() } by {
        if k > 0 { assert(b.items@[g[k]] == a.items@[free[k - 1]]); } }
}

/// Distinct slots above the root are fewer than the slots.
pub proof fn pigeonhole(f: Seq<int>, n: int)
    requires n >= 1, forall|k: int| 0 <= k < f.len() ==> 1 <= #[trigger] f[k] < n, forall|j: int, k: int| 0 <= j < k < f.len() ==> f[j] != f[k]
    ensures f.len() < n
    decreases n
{
    if n == 1 { if f.len() > 0 { assert(1 <= f[0] < n); } }
    else if exists|k: int| 0 <= k < f.len() && f[k] == n - 1 {
        let k = choose|k: int| 0 <= k < f.len() && f[k] == n - 1;
        let g = f.remove(k);
        assert forall|i: int| 0 <= i < g.len() implies 1 <= #[trigger] g[i] < n - 1 by { assert(g[i] == f[if i < k { i } else { i + 1 }]); }
        assert forall|i: int, j: int| 0 <= i < j < g.len() implies g[i] != g[j] by {
            assert(g[i] == f[if i < k { i } else { i + 1 }] && g[j] == f[if j < k { j } else { j + 1 }]); }
        pigeonhole(g, n - 1);
    } else {
        assert forall|i: int| 0 <= i < f.len() implies 1 <= #[trigger] f[i] < n - 1 by { }
        pigeonhole(f, n - 1);
    }
}

// ---- the property over any history of operations ---------------------------
/// The pool as a client sees it: which slots are in use and what they hold.
pub open spec fn view(p: Nodes, free: Seq<int>, i: int) -> Option<Node> {
    if p.in_use(free, i) { Some(p.items@[i]) } else { None }
}

/// Every operation does to the view what a set of live nodes would do.
fn step_add(p: &mut Nodes, node: Node, Ghost(free): Ghost<Seq<int>>) -> (r: (NodeChild, Ghost<Seq<int>>))
    requires old(p).inv(free), free.len() == 0 ==> room(old(p).items) > old(p).items@.len() && old(p).items@.len() < 0x7fff_ffff
    ensures final(p).inv(r.1@),
        ({ let i = -1 - r.0.value;
        &&& i >= Nodes::NUM_ROOTS && view(*old(p), free, i) is None && view(*final(p), r.1@, i) == Some(node)
        &&& forall|j: int| j != i ==> view(*final(p), r.1@, j) == view(*old(p), free, j)
        &&& final(p).items@.len() - r.1@.len() == old(p).items@.len() - free.len() + 1 })
{
    let c = p.add_node(node);
    let ghost after = if free.len() > 0 { free.drop_first() } else { free };
    proof {
        let i = -1 - c.value;
        if free.len() > 0 {
            assert(free.contains(free[0]));
            assert forall|j: int| j != i implies free.contains(j) == after.contains(j) by {
                if free.contains(j) { let k = choose|k: int| 0 <= k < free.len() && free[k] == j; assert(after[k - 1] == j); }
                if after.contains(j) { let k = choose|k: int| 0 <= k < after.len() && after[k] == j; assert(free[k + 1] == j); }
            }
            assert(!after.contains(i)) by { if after.contains(i) { let k = choose|k: int| 0 <= k < after.len() && after[k] == i; assert(free[k + 1] == i); } }
        } else {
            assert(p.items@.len() == old(p).items@.len() + 1);
        }
    }
    (c, Ghost(after))
}

fn step_delete(p: &mut Nodes, index: NodeIndex, Ghost(free): Ghost<Seq<int>>) -> (r: Ghost<Seq<int>>)
    requires old(p).inv(free), old(p).in_use(free, index.value as int), index.value >= Nodes::NUM_ROOTS
    ensures final(p).inv(r@), view(*final(p), r@, index.value as int) is None, r@.contains(index.value as int),
        forall|j: int| j != index.value ==> view(*final(p), r@, j) == view(*old(p), free, j),
        final(p).items@.len() - r@.len() == old(p).items@.len() - free.len() - 1
{
    p.delete_node(index);
    let ghost after = Seq::empty().push(index.value as int) + free;
    proof {
        assert(after[0] == index.value as int);
        assert forall|j: int| j != index.value implies free.contains(j) == after.contains(j) by {
            if free.contains(j) { let k = choose|k: int| 0 <= k < free.len() && free[k] == j; assert(after[k + 1] == j); }
            if after.contains(j) { let k = choose|k: int| 0 <= k < after.len() && after[k] == j; assert(free[k - 1] == j); }
        }
    }
    Ghost(after)
}

fn step_update(p: &mut Nodes, index: NodeIndex, node: Node, Ghost(free): Ghost<Seq<int>>)
    requires old(p).inv(free), old(p).in_use(free, index.value as int)
    ensures final(p).inv(free), view(*final(p), free, index.value as int) == Some(node),
        forall|j: int| j != index.value ==> view(*final(p), free, j) == view(*old(p), free, j)
{
    p.update_node(index, node);
}
'''

IDX = dict(Left=0, Right=1)
CH_INDEX = {
    "index": dict(spec="ensures *res == self.0[if index is Left { 0int } else { 1int }]"),
}
CH_INDEX_MUT = {
    "index_mut": dict(spec="""ensures *res == old(self).0[if index is Left { 0int } else { 1int }],
    final(self).0@ == old(self).0@.update(if index is Left { 0int } else { 1int }, *final(res))"""),
}
ND = "src/history/tree/node.rs"
NN = "src/history/tree/nodes.rs"
NCF = "src/history/tree/node_child.rs"
EQ = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"

TARGET = dict(
    name="nodes",
    properties=("C15",),
    prelude=PRELUDE,
    rewrites=[
        (r"([\w:]+(?:\((?:[^()]|\([^()]*\))*\))?(?:\.\w+\((?:[^()]|\([^()]*\))*\))*)\.into\(\)", r"NodeChild::from(\1)", "x.into() is NodeChild::from(x) (From as an ordinary function, so that it can have a precondition)"),
        (r"\(0\.\.([\w:]+)\)\.for_each\(\|_\| ([^;]*)\);", r"for _ in 0..\1 { \2; }", "(0..n).for_each(|_| e) is the loop for _ in 0..n { e; }"),
        (r"=\s*([\w.]+)\s*\.map\(\|(\w+)\|\s*([^|]*?)\)\s*\.unwrap_or\(([\w:]+)\)", r"= match \1 { Some(\2) => \3, None => \4 }", "o.map(|x| e).unwrap_or(d) is match o { Some(x) => e, None => d }"),
        (r"\bself\[(\w+)\]\s*=\s*([^=;][^;]*);", r"*self.index_mut(\1) = \2;", "self[i] = e is *self.index_mut(i) = e (IndexMut as an ordinary method)"),
        (r"\bself\[(\w+)\]", r"(*self.index(\1))", "self[i] is *self.index(i) (Index as an ordinary method)"),
        (r"\b(\w+)\.children\[([\w:]+)\]\s*=\s*([^=;][^;]*);", r"*\1.children.index_mut(\2) = \3;", "(the same for children)"),
        (r"\b((?:self|node)\.children|old_node_children)\[([\w:]+)\]", r"(*\1.index(\2))", "(the same for children)"),
    ],
    units=[
        dict(kind="enum", file="src/history/tree/direction.rs", name="Direction", attr=EQ),
        dict(kind="struct", file=NCF, name="NodeChild", attr=EQ),
        dict(kind="struct", file=NN, name="NodeIndex", attr=EQ),
        dict(kind="struct", file=NCF, name="NodeChildren", attr="#[derive(Clone, Copy)]\n"),
        dict(kind="struct", file=ND, name="Node", attr="#[derive(Clone, Copy)]\n"),
        dict(kind="struct", file=NN, name="Nodes"),
        dict(kind="impl", name="NodeIndex", emit="impl NodeIndex", file=NN, headers=["impl NodeIndex"],
             fns={"new": dict(spec="ensures res.value == value"), "raw": dict(spec="ensures res == self.value"),
                  "is_root": dict(spec="ensures res == (self.value < Nodes::NUM_ROOTS)")}),
        dict(kind="impl", name="NodeChild", emit="impl NodeChild", file=NCF, headers=["impl NodeChild"], skip=["to_window_index"], fns=NC),
        dict(kind="impl", name="NodeChild", emit="impl NodeChild", file=NCF, headers=["impl From<NodeIndex> for NodeChild"],
             fns={"from": dict(spec="requires 1 <= node_index.value <= 0x7fff_ffff\nensures res == link(node_index.value as int)", begin="proof { not_i32(); }\n")}),
        dict(kind="impl", name="NodeChildren", emit="impl NodeChildren", file=NCF, headers=["impl NodeChildren"], only=["INVALID", "items", "items_mut"],
             fns={"items": dict(spec="ensures *res == self.0"), "items_mut": dict(spec="ensures *res == old(self).0, final(self).0 == *final(res)")}),
        dict(kind="impl", name="NodeChildren", emit="impl NodeChildren", file=NCF, headers=["impl ops::Index<Direction> for NodeChildren"], skip=["Output"], fns=CH_INDEX),
        dict(kind="impl", name="NodeChildren", emit="impl NodeChildren", file=NCF, headers=["impl ops::IndexMut<Direction> for NodeChildren"], fns=CH_INDEX_MUT),
        dict(kind="impl", name="Node", emit="impl Node", file=ND, headers=["impl Node"], only=["INVALID", "is_valid"],
             fns={"is_valid": dict(spec="ensures res == node_valid(*self)", begin="proof { not_i32(); }\n")}),
        dict(kind="impl", name="Nodes", emit="impl Nodes", file=NN, headers=["impl Nodes"], fns=NODES),
        dict(kind="impl", name="Nodes", emit="impl Nodes", file=NN, headers=["impl ops::Index<NodeIndex> for Nodes"], skip=["Output"],
             fns={"index": dict(spec="""requires node_index.value < self.items@.len(), node_index.value >= Nodes::NUM_ROOTS || node_valid(self.items@[node_index.value as int])
ensures *res == self.items@[node_index.value as int]""")}),
        dict(kind="impl", name="Nodes", emit="impl Nodes", file=NN, headers=["impl ops::IndexMut<NodeIndex> for Nodes"],
             fns={"index_mut": dict(spec="""requires node_index.value < old(self).items@.len(), node_index.value >= Nodes::NUM_ROOTS || node_valid(old(self).items@[node_index.value as int])
ensures *res == old(self).items@[node_index.value as int],
    final(self).items@ == old(self).items@.update(node_index.value as int, *final(res)),
    final(self).last_deleted_node_idx_opt == old(self).last_deleted_node_idx_opt, final(self).removed_nodes_count == old(self).removed_nodes_count""")}),
    ],
    postlude=POST,
)
