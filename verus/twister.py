"""C24: MT19937-64 (src/random/mod.rs), for seed vectors of every length and
arbitrarily many numbers."""

PRELUDE = r'''
use vstd::prelude::*;
verus! {
global size_of usize == 8;

// ---- the definition (Nishimura and Matsumoto, mt19937-64.c) ------------------
pub open spec fn mix(p: u64, f: u64) -> u64 { mulw((p ^ (p >> 62)) as u64, f) }
pub open spec fn mulw(a: u64, b: u64) -> u64 { ((a as int * b as int) % 0x1_0000_0000_0000_0000) as u64 }
pub open spec fn addw(a: u64, b: u64) -> u64 { ((a as int + b as int) % 0x1_0000_0000_0000_0000) as u64 }
pub open spec fn subw(a: u64, b: u64) -> u64 { ((a as int - b as int) % 0x1_0000_0000_0000_0000) as u64 }
/// Word k of the state for a scalar seed.
pub open spec fn scalar(seed: u64, k: int) -> u64
    decreases k
{
    if k <= 0 { seed } else { addw(mulw((scalar(seed, k - 1) ^ (scalar(seed, k - 1) >> 62)) as u64, 6364136223846793005), k as u64) }
}
/// Where both passes over the state are: the words and the next place (1..=311).
pub struct Pass { pub words: Seq<u64>, pub i: int }
pub open spec fn placed(p: Pass, w: u64) -> Pass {
    let t = p.words.update(p.i, w);
    if p.i + 1 >= 312 { Pass { words: t.update(0, t[311]), i: 1 } } else { Pass { words: t, i: p.i + 1 } }
}
/// Which word of the key belongs to step n.
#[verifier::opaque]
pub open spec fn place(n: int, len: int) -> int { n % len }
/// The first pass after n steps: the key is added in.
#[verifier::opaque]
pub open spec fn keyed(key: Seq<u64>, n: int) -> Pass
    decreases n
{
    if n <= 0 { Pass { words: Seq::new(312, |k: int| scalar(19650218, k)), i: 1 } } else {
        let p = keyed(key, n - 1);
        let j = place(n - 1, key.len() as int);
        placed(p, addw(addw((p.words[p.i] ^ mix(p.words[p.i - 1], 3935559000370003845)) as u64, key[j]), j as u64))
    }
}
/// The second pass after n steps.
#[verifier::opaque]
pub open spec fn stirred(key: Seq<u64>, n: int) -> Pass
    decreases n
{
    if n <= 0 { keyed(key, if key.len() > 312 { key.len() as int } else { 312 }) } else {
        let p = stirred(key, n - 1);
        placed(p, subw((p.words[p.i] ^ mix(p.words[p.i - 1], 2862933555777941757)) as u64, p.i as u64))
    }
}
/// The state words for a vector seed.
pub open spec fn vector(key: Seq<u64>) -> Seq<u64> { stirred(key, 311).words.update(0, 0x8000_0000_0000_0000) }

/// Word k of the endless sequence that starts with the seed's 312 words.
pub open spec fn word(seed: Seq<u64>, k: int) -> u64
    decreases k
{
    if k < 312 { seed[k] } else { twist(word(seed, k - 312), word(seed, k - 311), word(seed, k - 156)) }
}
pub open spec fn twist(a: u64, b: u64, far: u64) -> u64 {
    let x = (a & 0xFFFF_FFFF_8000_0000) | (b & 0x7FFF_FFFF);
    far ^ (x >> 1) ^ (if x & 1 == 1 { 0xB502_6F5A_A966_19E9u64 } else { 0u64 })
}
pub open spec fn temper(x: u64) -> u64 {
    let x1 = x ^ ((x >> 29) & 0x5555_5555_5555_5555);
    let x2 = x1 ^ ((x1 << 17) & 0x71D6_7FFF_EDA6_0000);
    let x3 = x2 ^ ((x2 << 37) & 0xFFF7_EEE0_0000_0000);
    x3 ^ (x3 >> 43)
}


pub proof fn next_mod(v: int, m: int)
    requires v >= 0, m > 0
    ensures (v + 1) % m == (if v % m + 1 >= m { 0 } else { v % m + 1 })
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, m);
    let (q, r) = (v / m, v % m);
    if r + 1 >= m {
        assert((q + 1) * m + 0 == v + 1) by (nonlinear_arith) requires v == m * q + r, r + 1 == m;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v + 1, m, q + 1, 0);
    } else {
        assert(q * m + (r + 1) == v + 1) by (nonlinear_arith) requires v == m * q + r;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v + 1, m, q, r + 1);
    }
}
pub proof fn place_starts(len: int)
    requires len > 0
    ensures place(0, len) == 0
{ reveal(place); vstd::arithmetic::div_mod::lemma_small_mod(0, len as nat); }
pub proof fn place_steps(n: int, len: int)
    requires n >= 0, len > 0
    ensures place(n + 1, len) == (if place(n, len) + 1 >= len { 0 } else { place(n, len) + 1 }), 0 <= place(n, len) < len
{ reveal(place); next_mod(n, len); vstd::arithmetic::div_mod::lemma_mod_bound(n, len); }
pub proof fn keyed_starts(key: Seq<u64>)
    ensures keyed(key, 0) == (Pass { words: Seq::new(312, |k: int| scalar(19650218, k)), i: 1 })
{ reveal_with_fuel(keyed, 2); }
pub proof fn keyed_steps(key: Seq<u64>, n: int)
    requires n >= 0
    ensures ({ let p = keyed(key, n); let j = place(n, key.len() as int);
        keyed(key, n + 1) == placed(p, addw(addw((p.words[p.i] ^ mix(p.words[p.i - 1], 3935559000370003845)) as u64, key[j]), j as u64)) })
{ reveal_with_fuel(keyed, 2); }
pub proof fn stirred_starts(key: Seq<u64>)
    ensures stirred(key, 0) == keyed(key, if key.len() > 312 { key.len() as int } else { 312 })
{ reveal_with_fuel(stirred, 2); }
pub proof fn stirred_steps(key: Seq<u64>, n: int)
    requires n >= 0
    ensures ({ let p = stirred(key, n);
        stirred(key, n + 1) == placed(p, subw((p.words[p.i] ^ mix(p.words[p.i - 1], 2862933555777941757)) as u64, p.i as u64)) })
{ reveal_with_fuel(stirred, 2); }
pub proof fn low_bit()
    ensures forall|x: u64| #[trigger] ((x as usize) & 1usize) == (if x & 1u64 == 1u64 { 1usize } else { 0usize }),
        forall|x: u64| (#[trigger] (x >> 1u64)) <= 0x7fff_ffff_ffff_ffff && x >> 1u64 == x / 2,
{
    assert forall|x: u64| #[trigger] ((x as usize) & 1usize) == (if x & 1u64 == 1u64 { 1usize } else { 0usize }) by {
        assert(((x as usize) & 1usize) == (if x & 1u64 == 1u64 { 1usize } else { 0usize })) by (bit_vector);
    }
    assert forall|x: u64| (#[trigger] (x >> 1u64)) <= 0x7fff_ffff_ffff_ffff && x >> 1u64 == x / 2 by {
        assert(x >> 1u64 <= 0x7fff_ffff_ffff_ffff && x >> 1u64 == x / 2) by (bit_vector);
    }
}
/// The next block follows from this one.
pub open spec fn step(a: Seq<u64>, b: Seq<u64>, k: int) -> bool {
    b[k] == twist(a[k], if k < 311 { a[k + 1] } else { b[0] }, if k < 156 { a[k + 156] } else { b[k - 156] })
}
pub proof fn block(seed: Seq<u64>, a: Seq<u64>, b: Seq<u64>, base: int, upto: int)
    requires base >= 0, 0 <= upto <= 312, forall|k: int| 0 <= k < 312 ==> #[trigger] a[k] == word(seed, base + k), forall|k: int| 0 <= k < 312 ==> #[trigger] step(a, b, k)
    ensures forall|k: int| 0 <= k < upto ==> #[trigger] b[k] == word(seed, base + 312 + k)
    decreases upto
{
    if upto > 0 {
        block(seed, a, b, base, upto - 1);
        let k = upto - 1;
        assert(step(a, b, k));
        if k > 0 { assert(b[0] == word(seed, base + 312 + 0)); }
    }
}

impl MersenneTwister {
    /// `n` numbers of the sequence have been taken.
    pub open spec fn after(&self, seed: Seq<u64>, n: int) -> bool {
        &&& self.index <= 312 && seed.len() == 312 && n >= 0
        &&& (n + 312 - self.index) % 312 == 0
        &&& forall|k: int| 0 <= k < 312 ==> #[trigger] self.state@[k] == word(seed, n + 312 - self.index + k)
    }
}
'''
FILE = "src/random/mod.rs"
M = {
    "new_by_scalar_seed": dict(spec="""ensures res.index == 312, res.state@ =~= Seq::new(312, |k: int| scalar(seed, k)), res.after(res.state@, 0)""",
        loops=[dict(inv="""
invariant state_vector@.len() == 312, forall|k: int| 0 <= k < index ==> #[trigger] state_vector@[k] == scalar(seed, k),
""")]),
    "new_by_vector_seed": dict(begin="proof { place_starts(init_key@.len() as int); keyed_starts(init_key@); stirred_starts(init_key@); assert(1u64 << 63u64 == 0x8000_0000_0000_0000u64) by (bit_vector); }\n", spec="""requires 0 < init_key@.len()
ensures res.index == 312, res.state@ =~= vector(init_key@), res.after(res.state@, 0)""",
        loops=[dict(inv="""
invariant 0 < init_key@.len(), mt.index == 312, 1 <= i <= 311, j < init_key@.len(), j == place(vx_i as int, init_key@.len() as int),
    keyed(init_key@, vx_i as int).i == i, keyed(init_key@, vx_i as int).words =~= mt.state@,
""", begin="proof { place_steps(vx_i as int, init_key@.len() as int); keyed_steps(init_key@, vx_i as int); }\n"), dict(inv="""
invariant 0 < init_key@.len(), mt.index == 312, 1 <= i <= 311,
    stirred(init_key@, vx_i - 1).i == i, stirred(init_key@, vx_i - 1).words =~= mt.state@,
""", begin="proof { stirred_steps(init_key@, vx_i - 1); }\n")]),
    "next_int64": dict(begin="proof { low_bit(); }\n", insert=[(r"self\.index = 0;", """
proof {
    let (a, b) = (old(self).state@, self.state@);
    assert forall|k: int| 0 <= k < 312 implies #[trigger] step(a, b, k) by {}
    assert forall|seed: Seq<u64>, n: int| #[trigger] old(self).after(seed, n) implies (forall|k: int| 0 <= k < 312 ==> #[trigger] b[k] == word(seed, n + 312 + k)) && (n + 312) % 312 == 0 by { block(seed, a, b, n, 312); }
}""")], spec="""requires old(self).index <= 312
ensures final(self).index <= 312,
    forall|seed: Seq<u64>, n: int| #[trigger] old(self).after(seed, n) ==> res == temper(word(seed, 312 + n)) && final(self).after(seed, n + 1)""",
        loops=[dict(inv="""
invariant self.index == 312, old(self).index == 312,
    forall|k: int| 0 <= k < i ==> #[trigger] self.state@[k] == twist(old(self).state@[k], old(self).state@[k + 1], old(self).state@[k + 156]),
    forall|k: int| i <= k < 312 ==> #[trigger] self.state@[k] == old(self).state@[k],
""", begin="proof { low_bit(); }\n"), dict(inv="""
invariant self.index == 312, old(self).index == 312,
    forall|k: int| 0 <= k < 156 ==> #[trigger] self.state@[k] == twist(old(self).state@[k], old(self).state@[k + 1], old(self).state@[k + 156]),
    forall|k: int| 156 <= k < i ==> #[trigger] self.state@[k] == twist(old(self).state@[k], old(self).state@[k + 1], self.state@[k - 156]),
    forall|k: int| i <= k < 312 ==> #[trigger] self.state@[k] == old(self).state@[k],
""", begin="proof { low_bit(); }\n")]),
    "next_int63": dict(begin="proof { low_bit(); }\n", spec="""requires old(self).index <= 312
ensures final(self).index <= 312, res >= 0,
    forall|seed: Seq<u64>, n: int| #[trigger] old(self).after(seed, n) ==> res == temper(word(seed, 312 + n)) / 2 && final(self).after(seed, n + 1)"""),
}
TARGET = dict(
    name="twister", properties=("C24",), prelude=PRELUDE,
    rewrites=[],
    units=[
        dict(kind="struct", file=FILE, name="MersenneTwister"),
        dict(kind="impl", name="MersenneTwister", emit="impl MersenneTwister", file=FILE, headers=["impl MersenneTwister"],
             skip=["next_real1", "next_real2", "next_real3"], fns=M),
    ])
