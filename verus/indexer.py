"""C21: multi-dimensional indexing (src/util/indexer.rs)."""
FILE = "src/util/indexer.rs"
PRELUDE = r'''
use vstd::prelude::*;
verus! {

/// Number of slots of the first k dimensions.
pub open spec fn prod(d: Seq<IndexDimension>, k: int) -> int decreases k { if k <= 0 { 1 } else { prod(d, k - 1) * d[k - 1].limit } }
/// Slot of the tuple held by the first k dimensions (row-major).
pub open spec fn slot(d: Seq<IndexDimension>, k: int) -> int decreases k { if k <= 0 { 0 } else { slot(d, k - 1) * d[k - 1].limit + d[k - 1].value } }
pub open spec fn in_range(d: Seq<IndexDimension>) -> bool { forall|k: int| 0 <= k < d.len() ==> #[trigger] d[k].value < d[k].limit }
pub open spec fn same_shape(d: Seq<IndexDimension>, e: Seq<IndexDimension>) -> bool { d.len() == e.len() && forall|k: int| 0 <= k < d.len() ==> #[trigger] d[k].limit == e[k].limit }
/// The table fits the address space: every partial product is a usize.
pub open spec fn fits(d: Seq<IndexDimension>) -> bool { forall|k: int| 0 <= k <= d.len() ==> #[trigger] prod(d, k) <= usize::MAX }

/// A tuple in range lies within the table.
pub proof fn within(d: Seq<IndexDimension>, k: int)
    requires in_range(d), 0 <= k <= d.len()
    ensures 0 <= slot(d, k) < prod(d, k)
    decreases k
{
    if k > 0 {
        within(d, k - 1);
        let (a, p, l, v) = (slot(d, k - 1), prod(d, k - 1), d[k - 1].limit as int, d[k - 1].value as int);
        assert(v < l);
        assert(a * l + v < p * l && a * l + v >= 0) by (nonlinear_arith) requires 0 <= a < p, 0 <= v < l;
    }
}
/// Different tuples have different slots.
pub proof fn injective(d: Seq<IndexDimension>, e: Seq<IndexDimension>, k: int)
    requires in_range(d), in_range(e), same_shape(d, e), 0 <= k <= d.len(), slot(d, k) == slot(e, k)
    ensures forall|j: int| 0 <= j < k ==> d[j].value == e[j].value
    decreases k
{
    if k > 0 {
        let (a, b, l, v, w) = (slot(d, k - 1), slot(e, k - 1), d[k - 1].limit as int, d[k - 1].value as int, e[k - 1].value as int);
        assert(d[k - 1].value < d[k - 1].limit && e[k - 1].value < e[k - 1].limit && d[k - 1].limit == e[k - 1].limit);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a * l + v, l, a, v);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(b * l + w, l, b, w);
        injective(d, e, k - 1);
    }
}
/// Every slot is reached.
pub proof fn surjective(d: Seq<IndexDimension>, k: int, n: int) -> (e: Seq<IndexDimension>)
    requires 0 <= k <= d.len(), 0 <= n < prod(d, k), forall|j: int| 0 <= j < d.len() ==> #[trigger] d[j].limit >= 1
    ensures e.len() == k, forall|j: int| 0 <= j < k ==> (#[trigger] e[j]).limit == d[j].limit && e[j].value < e[j].limit, slot(e, k) == n
    decreases k
{
    if k == 0 { Seq::empty() } else {
        let l = d[k - 1].limit as int;
        let p = prod(d, k - 1);
        let (q, r) = (n / l, n % l);
        assert(l >= 1);
        assert(n == q * l + r && 0 <= r < l) by (nonlinear_arith) requires q == n / l, r == n % l, l >= 1;
        assert(0 <= q < p) by (nonlinear_arith) requires n == q * l + r, 0 <= r < l, 0 <= n < p * l;
        let s = surjective(d, k - 1, q);
        let e = s.push(IndexDimension { limit: l as usize, value: r as usize });
        slot_prefix(s, e, k - 1);
        e
    }
}
pub proof fn slot_prefix(s: Seq<IndexDimension>, e: Seq<IndexDimension>, k: int)
    requires 0 <= k <= s.len(), k <= e.len(), forall|j: int| 0 <= j < k ==> s[j] == e[j]
    ensures slot(s, k) == slot(e, k)
    decreases k
{ if k > 0 { slot_prefix(s, e, k - 1); } }
'''

INSIDE = '''
    spec fn dims(&self) -> Seq<IndexDimension>;
    spec fn given(&self) -> int;
    spec fn rank() -> nat;
    fn new_uninitialized() -> (res: Self)
        ensures res.dims().len() == Self::rank(), res.given() == 0, forall|k: int| 0 <= k < res.dims().len() ==> #[trigger] res.dims()[k] == (IndexDimension { limit: 0, value: 0 });
    fn dimensions_mut(&mut self) -> (res: &mut [IndexDimension])
        ensures (*res)@ == old(self).dims(), final(self).dims() == (*final(res))@, final(self).given() == old(self).given();
    fn common_mut(&mut self) -> (res: &mut IndexCommon)
        ensures res.current_input_index == old(self).given(), final(self).given() == final(res).current_input_index, final(self).dims() == old(self).dims();
'''
TRAIT = {
    "new": dict(
        spec="""requires dimensions@.len() == Self::rank()
ensures res.given() == 0, res.dims().len() == dimensions@.len(), forall|k: int| 0 <= k < dimensions@.len() ==> #[trigger] res.dims()[k] == (IndexDimension { limit: dimensions@[k], value: 0 })""",
        loops=[dict(inv="""
invariant result.dims().len() == dimensions@.len(), result.given() == 0,
    forall|k: int| 0 <= k < index ==> #[trigger] result.dims()[k] == (IndexDimension { limit: dimensions@[k], value: 0 }),
    forall|k: int| index <= k < dimensions@.len() ==> #[trigger] result.dims()[k] == (IndexDimension { limit: 0, value: 0 }),
""")]),
    "get_array_size": dict(
        spec="""requires old(self).given() == 0, fits(old(self).dims())
ensures res == prod(old(self).dims(), old(self).dims().len() as int), final(self).dims() == old(self).dims(), final(self).given() == 0""",
        begin="let ghost d = self.dims();\n",
        loops=[dict(iter="it", inv="""
invariant result == prod(d, it.index@), it.seq().len() == d.len(), forall|k: int| 0 <= k < d.len() ==> *#[trigger] it.seq()[k] == d[k], fits(d),
""", begin="proof { assert(prod(d, it.index@ + 1) <= usize::MAX); }\n")]),
    "with_sub_index": dict(
        spec="""requires 0 <= old(self).given() < old(self).dims().len(), old(self).dims().len() <= 0x7fff_ffff, value < old(self).dims()[old(self).given()].limit
ensures res.given() == old(self).given() + 1,
    res.dims() == old(self).dims().update(old(self).given(), IndexDimension { limit: old(self).dims()[old(self).given()].limit, value }),
    *final(res) == *final(self)"""),
    "get_array_index_and_reset": dict(
        spec="""requires old(self).given() == old(self).dims().len(), fits(old(self).dims()), in_range(old(self).dims())
ensures res == slot(old(self).dims(), old(self).dims().len() as int), res < prod(old(self).dims(), old(self).dims().len() as int),
    final(self).dims() == old(self).dims(), final(self).given() == 0""",
        begin="let ghost d = self.dims();\nproof { within(d, d.len() as int); }\n",
        loops=[dict(iter="it", inv="""
invariant result == slot(d, it.index@), it.seq().len() == d.len(), forall|k: int| 0 <= k < d.len() ==> *#[trigger] it.seq()[k] == d[k], fits(d), in_range(d),
""", begin="""proof {
    within(d, it.index@ as int); within(d, it.index@ + 1);
    assert(prod(d, it.index@ + 1) <= usize::MAX);
    let (p, l) = (result as int, dimension.limit as int);
    assert(p * l >= 0) by (nonlinear_arith) requires p >= 0, l >= 0;
}
""")]),
    "inputs_num": dict(spec="ensures res == old(self).dims().len(), final(self).dims() == old(self).dims(), final(self).given() == old(self).given()"),
}
POST = r'''
/// The property for two tuples given one sub-index after the other, in any
/// dimension list: in range, each its own slot.
pub fn two_tuples<I: Indexer>(ix: &mut I, a: &Vec<usize>, b: &Vec<usize>) -> (r: (usize, usize))
    requires old(ix).given() == 0, fits(old(ix).dims()), a.len() == old(ix).dims().len(), b.len() == a.len(), a.len() <= 0x7fff_ffff,
        forall|k: int| 0 <= k < a.len() ==> #[trigger] a@[k] < old(ix).dims()[k].limit, forall|k: int| 0 <= k < a.len() ==> #[trigger] b@[k] < old(ix).dims()[k].limit
    ensures r.0 < prod(old(ix).dims(), a.len() as int), r.1 < prod(old(ix).dims(), a.len() as int),
        (r.0 == r.1) == (a@ == b@), final(ix).given() == 0
{
    let ghost d = ix.dims();
    let r0 = one_tuple(ix, a);
    let ghost da = ix.dims();
    proof { shape_prod(d, da, d.len() as int); assert forall|k: int| 0 <= k <= da.len() implies #[trigger] prod(da, k) <= usize::MAX by { shape_prod(d, da, k); assert(prod(d, k) <= usize::MAX); } }
    let r1 = one_tuple(ix, b);
    let ghost db = ix.dims();
    proof {
        assert forall|k: int| 0 <= k < da.len() implies #[trigger] da[k].limit == db[k].limit by { }
        if r0 == r1 { injective(da, db, d.len() as int); assert forall|k: int| 0 <= k < a@.len() implies a@[k] == b@[k] by { assert(da[k].value == db[k].value); } assert(a@ =~= b@); }
        if a@ == b@ { assert forall|k: int| 0 <= k < d.len() implies da[k] == db[k] by { assert(da[k].limit == db[k].limit); assert(da[k].value == a@[k] && db[k].value == b@[k]); } assert(da =~= db); }
    }
    (r0, r1)
}
pub fn one_tuple<I: Indexer>(ix: &mut I, t: &Vec<usize>) -> (r: usize)
    requires old(ix).given() == 0, fits(old(ix).dims()), t.len() == old(ix).dims().len(), t.len() <= 0x7fff_ffff,
        forall|k: int| 0 <= k < t.len() ==> #[trigger] t@[k] < old(ix).dims()[k].limit
    ensures same_shape(old(ix).dims(), final(ix).dims()), in_range(final(ix).dims()), final(ix).given() == 0,
        forall|k: int| 0 <= k < t.len() ==> (#[trigger] final(ix).dims()[k]).value == t@[k],
        r == slot(final(ix).dims(), t.len() as int), r < prod(old(ix).dims(), t.len() as int)
{
    let mut k: usize = 0;
    let ghost d = ix.dims();
    while k < t.len()
        invariant ix.given() == k, k <= t.len(), t.len() == d.len(), t.len() <= 0x7fff_ffff, same_shape(d, ix.dims()), fits(d),
            forall|j: int| 0 <= j < t.len() ==> #[trigger] t@[j] < d[j].limit,
            forall|j: int| 0 <= j < k ==> (#[trigger] ix.dims()[j]).value == t@[j]
        decreases t.len() - k
    {
        let ghost before = ix.dims();
        proof { assert(d[k as int].limit == before[k as int].limit); assert(t@[k as int] < d[k as int].limit); }
        ix.with_sub_index(t[k]);
        proof {
            assert forall|j: int| 0 <= j < d.len() implies #[trigger] d[j].limit == ix.dims()[j].limit by { assert(d[j].limit == before[j].limit); }
            assert forall|j: int| 0 <= j < k + 1 implies (#[trigger] ix.dims()[j]).value == t@[j] by { if j < k { assert(before[j].value == t@[j]); } }
        }
        k += 1;
    }
    proof {
        assert forall|k: int| 0 <= k <= d.len() implies #[trigger] prod(ix.dims(), k) <= usize::MAX by { shape_prod(d, ix.dims(), k); assert(prod(d, k) <= usize::MAX); }
        shape_prod(d, ix.dims(), d.len() as int);
        assert forall|j: int| 0 <= j < d.len() implies (#[trigger] ix.dims()[j]).value < ix.dims()[j].limit by { assert(t@[j] < d[j].limit); assert(d[j].limit == ix.dims()[j].limit); }
    }
    ix.get_array_index_and_reset()
}
pub proof fn shape_prod(d: Seq<IndexDimension>, e: Seq<IndexDimension>, k: int)
    requires same_shape(d, e), 0 <= k <= d.len()
    ensures prod(d, k) == prod(e, k)
    decreases k
{ if k > 0 { shape_prod(d, e, k - 1); assert(d[k - 1].limit == e[k - 1].limit); } }
'''
UNITS = [
    dict(kind="struct", file=FILE, name="IndexDimension"),
    dict(kind="impl", name="IndexDimension", emit="impl IndexDimension", file=FILE, headers=["impl IndexDimension"],
         fns={"new": dict(spec="ensures res.limit == 0, res.value == 0")}),
    dict(kind="struct", file=FILE, name="IndexCommon"),
    dict(kind="impl", name="IndexCommon", emit="impl IndexCommon", file=FILE, headers=["impl IndexCommon"],
         fns={"new": dict(spec="ensures res.current_input_index == 0")}),
    dict(kind="impl", name="Indexer", emit="pub trait Indexer where Self: Sized", inside=INSIDE, file=FILE,
         headers=["pub trait Indexer where Self: Sized"], fns=TRAIT),
]
for n in range(1, 7):
    nm = "Indexer%d" % n
    UNITS += [
        dict(kind="struct", file=FILE, name=nm),
        dict(kind="impl", name=nm, emit="impl Indexer for " + nm, file=FILE, headers=["impl Indexer for " + nm],
             inside="\nopen spec fn dims(&self) -> Seq<IndexDimension> { self.dimensions@ }\nopen spec fn given(&self) -> int { self.common.current_input_index as int }\nopen spec fn rank() -> nat { %d }\n" % n,
             fns={"new_uninitialized": dict(), "dimensions_mut": dict(), "common_mut": dict()}),
    ]
TARGET = dict(
    name="indexer", properties=("C21",), prelude=PRELUDE,
    rewrites=[
        (r"let n = \|\| IndexDimension::new\(\);", "", "`let n = || IndexDimension::new()` is inlined at its calls"),
        (r"\bn\(\)", "IndexDimension::new()", "(the same)"),
        (r"\bpub trait\b", "pub trait", ""),
    ][:2],
    units=UNITS, postlude=POST)
