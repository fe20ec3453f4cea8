"""C14: the input window (src/history/window.rs)."""

PRELUDE = r'''
use vstd::prelude::*;
use std::ops;
verus! {

impl vstd::std_specs::convert::FromSpecImpl<bool> for Bit {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: bool) -> Bit { if v { Bit::One } else { Bit::Zero } }
}

/// `a & b` of two bools, both evaluated.
fn band(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }

// ---- vocabulary of the contracts ------------------------------------------
pub open spec fn wrap(i: int, m: int) -> int { if i >= m { i - m } else { i } }
pub open spec fn bit_of(b: u8, k: int) -> bool { (b >> (k as u8)) & 1u8 == 1u8 }

/// A window index is valid; its position in the sequence held.
pub open spec fn pos(i: int, start: int, m: int) -> int { if i >= start { i - start } else { i - start + m } }

pub open spec fn eqk(b: Seq<u8>, f: int, s: int, k: int) -> bool { b[f + k] == b[s + k] }

impl InputWindow {
    /// Invariant.  The buffer grows until it has max_size bytes; until then
    /// nothing has wrapped.  (max_size is at most isize::MAX: allocation limit
    /// of Vec.)
    pub open spec fn wf(&self) -> bool {
        &&& 0 < self.max_size <= isize::MAX as int
        &&& self.size <= self.max_size
        &&& self.start.value < self.max_size
        &&& self.buffer@.len() <= self.max_size
        &&& self.buffer@.len() < self.max_size ==> self.start.value + self.size == self.buffer@.len()
        &&& self.cursor.value < self.max_size
        &&& self.cursor.value == wrap(self.start.value + self.size - 1 + if self.start.value + self.size == 0 { self.max_size as int } else { 0 }, self.max_size as int)
    }
    /// The place of the i-th byte held.
    pub open spec fn at(&self, i: int) -> int { wrap(self.start.value + i, self.max_size as int) }
    /// The bytes appended and not yet dropped.
    pub open spec fn content(&self) -> Seq<u8> { Seq::new(self.size as nat, |i: int| self.buffer@[self.at(i)]) }
    pub open spec fn position(&self, i: WindowIndex) -> int { pos(i.value as int, self.start.value as int, self.max_size as int) }
    pub open spec fn byte(&self, i: int, k: int) -> u8 { self.buffer@[wrap(i + k, self.max_size as int)] }
    pub open spec fn eqw(&self, f: int, s: int, k: int) -> bool { self.byte(f, k) == self.byte(s, k) }
    /// `n` whole bytes and the bits above `bit` of the next one are the same.
    pub open spec fn same_prefix(&self, f: int, s: int, bit: int, n: int) -> bool {
        &&& forall|k: int| 0 <= k < n ==> #[trigger] self.eqw(f, s, k)
        &&& forall|j: int| bit < j <= 7 ==> bit_of(self.byte(f, n), j) == #[trigger] bit_of(self.byte(s, n), j)
    }
    /// The bytes `same_prefix` looks at are there.
    pub open spec fn readable(&self, i: int, bit: int, n: int) -> bool {
        &&& 0 <= i < self.max_size && 0 <= n <= self.max_size
        &&& self.buffer@.len() < self.max_size ==> i + n + (if bit < 7 { 1int } else { 0int }) <= self.buffer@.len()
    }
}

/// Positions of the sequence held are what the index arithmetic computes with.
pub proof fn positions(w: InputWindow, i: int)
    requires w.wf(), 0 <= i < w.size
    ensures 0 <= w.at(i) < w.buffer@.len(), pos(w.at(i), w.start.value as int, w.max_size as int) == i, w.content()[i] == w.buffer@[w.at(i)]
{ }

/// Prefix comparison speaks about the sequence held.
pub proof fn prefixes(w: InputWindow, i: int, j: int, bit: int, n: int)
    requires w.wf(), 0 <= i, 0 <= j, 0 <= n, i + n < w.size, j + n < w.size
    ensures
        w.readable(w.at(i), bit, n), w.readable(w.at(j), bit, n),
        w.same_prefix(w.at(i), w.at(j), bit, n) ==
            (w.content().subrange(i, i + n) == w.content().subrange(j, j + n)
             && forall|b: int| bit < b <= 7 ==> bit_of(w.content()[i + n], b) == #[trigger] bit_of(w.content()[j + n], b))
{
    assert forall|k: int| 0 <= k <= n implies w.byte(w.at(i), k) == #[trigger] w.content()[i + k] by {}
    assert forall|k: int| 0 <= k <= n implies w.byte(w.at(j), k) == #[trigger] w.content()[j + k] by {}
    let (a, b) = (w.content().subrange(i, i + n), w.content().subrange(j, j + n));
    if a == b {
        assert forall|k: int| 0 <= k < n implies #[trigger] w.eqw(w.at(i), w.at(j), k) by {
            assert(a[k] == w.content()[i + k] && b[k] == w.content()[j + k]);
        }
    }
    if forall|k: int| 0 <= k < n ==> #[trigger] w.eqw(w.at(i), w.at(j), k) {
        assert forall|k: int| 0 <= k < n implies a[k] == b[k] by {
            assert(w.eqw(w.at(i), w.at(j), k));
            assert(w.content()[i + k] == w.content()[j + k]);
        }
        assert(a =~= b);
    }
    assert(w.byte(w.at(i), n) == w.content()[i + n] && w.byte(w.at(j), n) == w.content()[j + n]);
}

pub proof fn xor_bits(a: u8, b: u8, k: u8)
    requires k < 8
    ensures ((((a ^ b) >> k) & 1u8) == 1u8) == !(((a >> k) & 1u8 == 1u8) == ((b >> k) & 1u8 == 1u8))
{
    assert(k < 8 ==> ((((a ^ b) >> k) & 1u8) == 1u8) == !(((a >> k) & 1u8 == 1u8) == ((b >> k) & 1u8 == 1u8))) by (bit_vector);
}

/// `(a..b).chain(c..d)` of std: the numbers of both ranges in order.
#[derive(Clone, Copy)]
pub struct VxChain { pub a: usize, pub b: usize, pub c: usize, pub d: usize }
impl VxChain {
    pub open spec fn first(&self) -> Seq<usize> { Seq::new(if self.b > self.a { (self.b - self.a) as nat } else { 0 }, |i: int| (self.a + i) as usize) }
    pub open spec fn second(&self) -> Seq<usize> { Seq::new(if self.d > self.c { (self.d - self.c) as nat } else { 0 }, |i: int| (self.c + i) as usize) }
    pub open spec fn rest(&self) -> Seq<usize> { self.first() + self.second() }
    pub fn clone(&self) -> (r: Self) ensures r == *self { *self }
    pub fn count(self) -> (r: usize)
        requires (if self.b > self.a { self.b - self.a } else { 0 }) + (if self.d > self.c { self.d - self.c } else { 0 }) <= usize::MAX
        ensures r == self.rest().len()
    { (if self.b > self.a { self.b - self.a } else { 0 }) + (if self.d > self.c { self.d - self.c } else { 0 }) }
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures old(self).rest().len() == 0 ==> r is None,
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() =~= old(self).rest().drop_first()
    {
        if self.a < self.b { self.a += 1; Some(self.a - 1) }
        else if self.c < self.d { self.c += 1; Some(self.c - 1) }
        else { None }
    }
}
/// What a callback was called with.
pub struct VxLog { pub calls: Ghost<Seq<WindowIndex>> }
impl VxLog {
    pub fn call(&mut self, x: WindowIndex) ensures final(self).calls@ == old(self).calls@.push(x)
    { self.calls = Ghost(self.calls@.push(x)); }
}

/// Storing one bit in the two steps of `set_bit_at_cursor`.
pub proof fn store_bit(a: u8, v: u8, k: u8, j: u8)
    requires k < 8, v <= 1, j < 8
    ensures bit_of((a & !(1u8 << k)) | (v << k), j as int) == (if j == k { v == 1u8 } else { bit_of(a, j as int) })
{
    assert(k < 8 && v <= 1 && j < 8 ==>
        (((((a & !(1u8 << k)) | (v << k)) >> j) & 1u8) == 1u8) == (if j == k { v == 1u8 } else { (a >> j) & 1u8 == 1u8 })) by (bit_vector);
}
'''

FULL = "res.value"
W = {
    "new": dict(
        spec="""requires 0 < max_window_size <= isize::MAX as int, initial_shift < max_window_size
ensures res.wf(), res.max_size == max_window_size, res.size == 0, res.start.value == initial_shift, res.content() =~= Seq::<u8>::empty()"""),
    "start": dict(spec="ensures res == self.start"),
    "cursor": dict(spec="ensures res == self.cursor"),
    "size": dict(spec="ensures res == self.size"),
    "max_size": dict(spec="ensures res == self.max_size"),
    "advance_start": dict(
        spec="""requires old(self).wf(), old(self).size > 0
ensures final(self).wf(), final(self).max_size == old(self).max_size, final(self).size == old(self).size - 1,
    final(self).content() =~= old(self).content().drop_first(),
    final(self).start.value == wrap(old(self).start.value + 1, old(self).max_size as int),
    final(self).cursor == old(self).cursor"""),
    "advance_cursor": dict(
        spec="""requires old(self).wf(), old(self).size < old(self).max_size
ensures final(self).wf(), final(self).max_size == old(self).max_size, final(self).size == old(self).size + 1,
    final(self).content() =~= old(self).content().push(0u8), final(self).start == old(self).start"""),
    "check_size_invariants": dict(
        spec="requires self.wf()"),
    "index_add": dict(
        spec="""requires 0 < self.max_size <= isize::MAX as int, index.value < self.max_size, to_add <= self.max_size,
    index.value + to_add >= self.max_size ==> self.buffer@.len() == self.max_size
ensures res.value == wrap(index.value + to_add, self.max_size as int), res.value < self.max_size"""),
    "index_increment": dict(
        spec="""requires 0 < self.max_size <= isize::MAX as int, index.value < self.max_size,
    index.value + 1 >= self.max_size ==> self.buffer@.len() == self.max_size
ensures res.value == wrap(index.value + 1, self.max_size as int), res.value < self.max_size"""),
    "index_subtract": dict(
        spec="""requires 0 < self.max_size <= isize::MAX as int, index.value < self.max_size, to_subtract <= self.max_size,
    index.value < to_subtract ==> self.buffer@.len() == self.max_size
ensures res.value == index.value - to_subtract + (if index.value < to_subtract { self.max_size as int } else { 0 }), res.value < self.max_size,
    wrap(res.value + to_subtract, self.max_size as int) == index.value || to_subtract == self.max_size"""),
    "index_decrement": dict(
        spec="""requires 0 < self.max_size <= isize::MAX as int, index.value < self.max_size,
    index.value < 1 ==> self.buffer@.len() == self.max_size
ensures res.value == index.value - 1 + (if index.value < 1 { self.max_size as int } else { 0 }), res.value < self.max_size"""),
    "index_diff": dict(
        spec="""requires 0 < self.max_size <= isize::MAX as int, target.value < self.max_size, source.value < self.max_size,
    target.value < source.value ==> self.buffer@.len() == self.max_size
ensures res < self.max_size, res == target.value - source.value + (if target.value < source.value { self.max_size as int } else { 0 }),
    self.start.value < self.max_size && self.position(target) >= self.position(source) ==> res == self.position(target) - self.position(source)"""),
    "index_is_smaller": dict(
        spec="""requires self.wf(), idx1.value < self.max_size, idx2.value < self.max_size
ensures res == (self.position(idx1) < self.position(idx2))"""),
    "index_is_smaller_or_equal": dict(
        spec="""requires self.wf(), idx_1.value < self.max_size, idx_2.value < self.max_size
ensures res == (self.position(idx_1) <= self.position(idx_2))"""),
    "compare_for_equal_prefix": dict(
        spec="""requires self.wf(), self.readable(starting_index_first.value as int, bit_index as int, full_byte_length as int),
    self.readable(starting_index_second.value as int, bit_index as int, full_byte_length as int)
ensures res == self.same_prefix(starting_index_first.value as int, starting_index_second.value as int, bit_index as int, full_byte_length as int)""",
        begin="""proof {
    let (f, s, n) = (starting_index_first.value as int, starting_index_second.value as int, full_byte_length as int);
    if f + n < self.max_size && s + n < self.max_size {
        assert forall|k: int| 0 <= k < n implies #[trigger] self.eqw(f, s, k) == eqk(self.buffer@, f, s, k) by {}
        assert forall|k: int| 0 <= k < n implies #[trigger] eqk(self.buffer@, f, s, k) == self.eqw(f, s, k) by {}
        assert(self.byte(f, n) == self.buffer@[f + n] && self.byte(s, n) == self.buffer@[s + n]);
    }
}
""",
        loops=[dict(index="vx_i", after="""proof {
    if equal {
        assert(self.byte(starting_index_first as int, full_byte_length as int) == self.buffer@[index_first.value + 0]);
        assert(self.byte(starting_index_second as int, full_byte_length as int) == self.buffer@[index_second.value + 0]);
    }
}
""", inv="""
invariant_except_break equal,
    index_first.value == wrap(starting_index_first + vx_i, self.max_size as int), index_second.value == wrap(starting_index_second + vx_i, self.max_size as int),
    forall|k: int| 0 <= k < vx_i ==> #[trigger] self.eqw(starting_index_first as int, starting_index_second as int, k),
invariant self.wf(), self.readable(starting_index_first as int, bit_index as int, full_byte_length as int),
    self.readable(starting_index_second as int, bit_index as int, full_byte_length as int), vx_i <= full_byte_length,
    (if starting_index_first >= starting_index_second { starting_index_first } else { starting_index_second }) + full_byte_length >= self.max_size,
ensures
    equal ==> index_first.value == wrap(starting_index_first + full_byte_length, self.max_size as int) && index_second.value == wrap(starting_index_second + full_byte_length, self.max_size as int)
        && forall|k: int| 0 <= k < full_byte_length ==> #[trigger] self.eqw(starting_index_first as int, starting_index_second as int, k),
    !equal ==> index_first.value < self.buffer@.len() && index_second.value < self.buffer@.len()
        && exists|k: int| 0 <= k < full_byte_length && !#[trigger] self.eqw(starting_index_first as int, starting_index_second as int, k),
""", begin="""proof {
    assert(self.eqw(starting_index_first as int, starting_index_second as int, vx_i as int) == (self.buffer@[index_first.value as int] == self.buffer@[index_second.value as int]));
    assert(self.byte(starting_index_first as int, vx_i as int) == self.buffer@[index_first.value as int]);
    assert(self.byte(starting_index_second as int, vx_i as int) == self.buffer@[index_second.value as int]);
}
""")]),
    "compare_for_equal_prefix_straight": dict(
        spec="""requires self.wf(), starting_index_first + full_byte_length + (if bit_index < 7 { 1int } else { 0int }) <= self.buffer@.len(),
    starting_index_second + full_byte_length + (if bit_index < 7 { 1int } else { 0int }) <= self.buffer@.len()
ensures res == ((forall|k: int| 0 <= k < full_byte_length ==> #[trigger] eqk(self.buffer@, starting_index_first as int, starting_index_second as int, k))
    && (forall|j: int| bit_index < j <= 7 ==> bit_of(self.buffer@[starting_index_first + full_byte_length], j) == #[trigger] bit_of(self.buffer@[starting_index_second + full_byte_length], j)))""",
        loops=[dict(begin="""proof { assert(eqk(self.buffer@, starting_index_first as int, starting_index_second as int, position as int) == (self.buffer@[starting_index_first + position] == self.buffer@[starting_index_second + position])); }
""", inv="""
invariant_except_break equal, forall|k: int| 0 <= k < position ==> #[trigger] eqk(self.buffer@, starting_index_first as int, starting_index_second as int, k),
invariant self.wf(), starting_index_first + full_byte_length <= self.buffer@.len(), starting_index_second + full_byte_length <= self.buffer@.len(),
ensures equal == (forall|k: int| 0 <= k < full_byte_length ==> #[trigger] eqk(self.buffer@, starting_index_first as int, starting_index_second as int, k)),
"""),
               dict(inv="""
invariant self.wf(), bit_position <= 7, bit_position == 7 || bit_position >= bit_index,
    bit_index < 7 ==> starting_index_first + full_byte_length < self.buffer@.len() && starting_index_second + full_byte_length < self.buffer@.len(),
    equal ==> (forall|k: int| 0 <= k < full_byte_length ==> #[trigger] eqk(self.buffer@, starting_index_first as int, starting_index_second as int, k)),
    equal ==> forall|j: int| bit_position < j <= 7 ==> bit_of(self.buffer@[starting_index_first + full_byte_length], j) == #[trigger] bit_of(self.buffer@[starting_index_second + full_byte_length], j),
    !equal ==> !((forall|k: int| 0 <= k < full_byte_length ==> #[trigger] eqk(self.buffer@, starting_index_first as int, starting_index_second as int, k))
        && forall|j: int| bit_index < j <= 7 ==> bit_of(self.buffer@[starting_index_first + full_byte_length], j) == #[trigger] bit_of(self.buffer@[starting_index_second + full_byte_length], j)),
decreases bit_position
""", begin="""let ghost before = bit_position as int;
proof { assert(bit_of(self.buffer@[starting_index_first + full_byte_length], before) == bit_of(self.buffer@[starting_index_first + full_byte_length], before)); }
""")]),
    "bytes_differ_on": dict(
        spec="""requires first_byte_index.value < self.buffer@.len(), second_byte_index.value < self.buffer@.len(), bit_index < 8
ensures res == (bit_of(self.buffer@[first_byte_index.value as int], bit_index as int) != bit_of(self.buffer@[second_byte_index.value as int], bit_index as int))""",
        begin="proof { xor_bits(self.buffer@[first_byte_index.value as int], self.buffer@[second_byte_index.value as int], bit_index as u8); }\n"),
    "get_bit": dict(
        spec="""requires byte_index.value < self.buffer@.len(), bit_index < 8
ensures res == (if bit_of(self.buffer@[byte_index.value as int], bit_index as int) { Bit::One } else { Bit::Zero })"""),
    "set_bit_at_cursor": dict(
        spec="""requires old(self).wf(), old(self).size > 0, bit_index < 8
ensures final(self).wf(), final(self).max_size == old(self).max_size, final(self).size == old(self).size, final(self).start == old(self).start,
    final(self).content() =~= old(self).content().update(old(self).size - 1, final(self).buffer@[old(self).cursor.value as int]),
    forall|j: u8| j < 8 ==> #[trigger] bit_of(final(self).content()[old(self).size - 1], j as int) == (if j == bit_index { bit_value is One } else { bit_of(old(self).content()[old(self).size - 1], j as int) })""",
        begin="""let ghost a = self.buffer@[self.cursor.value as int];
let ghost v = if bit_value is One { 1u8 } else { 0u8 };
proof { positions(*self, self.size - 1);
    let (k, q) = (bit_index, bit_index as u8);
    assert(k < 8 && q == k ==> (1u8 << q) == (1u8 << k) && (v << q) == (v << k)) by (bit_vector);
    assert forall|j: u8| j < 8 implies #[trigger] bit_of((a & !(1u8 << q)) | (v << q), j as int) == (if j == q { v == 1u8 } else { bit_of(a, j as int) }) by { store_bit(a, v, q, j); } }
"""),
    "set_byte_at_cursor": dict(
        spec="""requires old(self).cursor.value < old(self).buffer@.len()
ensures final(self).max_size == old(self).max_size, final(self).size == old(self).size, final(self).start == old(self).start, final(self).cursor == old(self).cursor,
    final(self).buffer@ == old(self).buffer@.update(old(self).cursor.value as int, byte_value),
    old(self).wf() && old(self).size > 0 ==> final(self).wf() && final(self).content() =~= old(self).content().update(old(self).size - 1, byte_value)"""),
    "for_each_suffix": dict(
        # every position held, once, in the order of the bytes
        spec="""requires self.wf()
ensures final(action).calls@ =~= old(action).calls@ + Seq::new(self.size as nat, |i: int| WindowIndex { value: self.at(i) as usize })""",
        begin="let ghost before = action.calls@;\nlet ghost all = Seq::new(self.size as nat, |i: int| self.at(i) as usize);\nlet ghost mut n: int = 0;\n",
        loops=[dict(inv="""
invariant_except_break 0 <= n <= all.len(), vx_c.rest() =~= all.subrange(n, all.len() as int),
invariant 0 <= n <= all.len(), action.calls@ =~= before + Seq::new(n as nat, |i: int| WindowIndex { value: all[i] }),
ensures n == all.len(),
decreases all.len() - n
""", end="proof { n = n + 1; }\n")]),
}

TARGET = dict(
    name="window",
    properties=("C14",),
    prelude=PRELUDE,
    rewrites=[
        (r"\b(\w*buffer)\.capacity\(\)", lambda m: "self.max_size" if m.group(1) != "buffer" else "max_window_size", "capacity of the buffer"),
        (r"self\.self\.", "self.", ""),
    ],
    units=[],
)
TARGET["rewrites"] = [
    (r"\bself\.buffer\.capacity\(\)", "self.max_size",
     "the buffer's capacity stands as max_size: Vec::with_capacity allocates exactly that for bytes and a Vec grows only when full (trusted; the code asserts it at run time)"),
    (r"(?<![.\w])buffer\.capacity\(\)", "max_window_size", "(the same in `new`)"),
    (r"\b(equal) &=\s*([^;]+);", r"\1 = band(\1, \2);", "`a &= b` of bools is the call a = band(a, b)"),
    (r"\(([^()]*?)\.\.([^()]*?)\)\s*\.chain\(([^()]*?)\.\.([^()]*?)\)", r"VxChain { a: \1, b: \2, c: \3, d: \4 }", "(a..b).chain(c..d) is a struct of the four limits with its own next, count and clone"),
    (r"for (\w+) in (suffices_range) \{", r"let mut vx_c = \2; #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] loop { let \1 = match vx_c.next() { Some(vx_x) => vx_x, None => break };", "a for loop over an iterator calls next until it gives None"),
    (r"<F: Fn\(WindowIndex\) -> \(\)>", "", "the callback of for_each_suffix is a log of its calls"),
    (r"\baction: F\b", "action: &mut VxLog", "(the same, parameter)"),
    (r"\baction\(", "action.call(", "(the same, call)"),
    (r"\bself\[(\w+)\]", r"(*self.index(\1))", "self[i] is the call self.index(i), whose body is extracted from the Index impl"),
]
TARGET["units"] = [
    dict(kind="enum", file="src/bit/mod.rs", name="Bit", attr="#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"),
    dict(kind="impl", name="Bit", emit="impl Bit", file="src/bit/mod.rs", headers=["impl Bit"], only=["is_0", "is_1"],
         fns={"is_0": dict(spec="ensures res == (*self is Zero)"), "is_1": dict(spec="ensures res == (*self is One)")}),
    dict(kind="impl", name="Bit", emit="impl From<bool> for Bit", file="src/bit/mod.rs",
         headers=["impl From<bool> for Bit"], fns={"from": dict()}),
    dict(kind="fn", file="src/history/window.rs", name="get_bit",
         spec=dict(spec="""requires bit_index < 8
ensures res == (if bit_of(byte, bit_index as int) { Bit::One } else { Bit::Zero })""",
                   begin="proof { assert(forall|k: u8| k < 8 ==> #[trigger] (byte >> k) == (byte >> (k as usize))) by (bit_vector); assert(bit_of(byte, bit_index as int) == ((byte >> bit_index) & 1u8 == 1u8)); }\n")),
    dict(kind="struct", file="src/history/window.rs", name="WindowIndex", attr="#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"),
    dict(kind="impl", name="WindowIndex", emit="impl WindowIndex", file="src/history/window.rs", headers=["impl WindowIndex"],
         fns={"new": dict(spec="ensures res.value == value"), "raw": dict(spec="ensures res == self.value")}),
    dict(kind="struct", file="src/history/window.rs", name="InputWindow"),
    dict(kind="impl", name="InputWindow", emit="impl InputWindow", file="src/history/window.rs",
         headers=["impl InputWindow"], fns=W),
    dict(kind="impl", name="InputWindow", emit="impl InputWindow", file="src/history/window.rs",
         headers=["impl ops::Index<WindowIndex> for InputWindow"], skip=["Output"],
         fns={"index": dict(spec="requires window_index.value < self.buffer@.len()\nensures *res == self.buffer@[window_index.value as int]")}),
]
