use vstd::prelude::*;
//@src fixed crates/host/layout/src/fixed.rs
//@src var crates/host/layout/src/var.rs
//@sub \+= byte_size\b ==> += *byte_size
verus! {
//@item var type:Id
//@item var struct:RawVar
//@item fixed struct:FixedLayout
//@include iter.inc
#[verifier::external_body]
pub fn rt_assert(b: bool) ensures b { assert!(b); }

/// The variables have consecutive ids; each starts where the one before it ends.
pub open spec fn contiguous(v: Seq<RawVar>, first: int) -> bool {
    forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).id == first + i
        && v[i].offset == (if i == 0 { 0 } else { v[i - 1].offset + v[i - 1].byte_size })
}
pub open spec fn total(s: Seq<u32>, n: int) -> int decreases n { if n <= 0 { 0 } else { total(s, n - 1) + s[n - 1] } }
proof fn total_mono(s: Seq<u32>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures total(s, a) <= total(s, b)
    decreases b - a
{ if a < b { total_mono(s, a, b - 1); } }
/// No two variables share a byte.
proof fn disjoint(v: Seq<RawVar>, first: int, i: int, j: int)
    requires contiguous(v, first), 0 <= i < j < v.len()
    ensures v[i].offset + v[i].byte_size <= v[j].offset
    decreases j - i
{ if i + 1 < j { disjoint(v, first, i, j - 1); assert(v[j].offset == v[j - 1].offset + v[j - 1].byte_size); } else { assert(v[j].offset == v[j - 1].offset + v[j - 1].byte_size); } }

impl FixedLayout {
//@fn fixed FixedLayout::from_byte_sizes
//@contract
    requires total(lengths@, lengths@.len() as int) <= u32::MAX, first + lengths@.len() <= u32::MAX + 1,
    ensures r.first == Some(first), r.vars@.len() == lengths@.len(), contiguous(r.vars@, first as int),
        forall|i: int| 0 <= i < lengths@.len() ==> (#[trigger] r.vars@[i]).byte_size == lengths@[i],
//@inv 0
    invariant
        total(lengths@, lengths@.len() as int) <= u32::MAX, first + lengths@.len() <= u32::MAX + 1,
        0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == lengths@.len(), forall|i: int| 0 <= i < __it0.v@.len() ==> *(#[trigger] __it0.v@[i]) == lengths@[i],
        vars@.len() == __it0.i@, offset == total(lengths@, __it0.i@), contiguous(vars@, first as int),
        forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).byte_size == lengths@[i] && vars@[i].offset == total(lengths@, i),
    ensures vars@.len() == lengths@.len(), contiguous(vars@, first as int), forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).byte_size == lengths@[i],
    decreases __it0.v@.len() - __it0.i@
//@top 0
    proof { let j = __it0.i@; if j < lengths@.len() { total_mono(lengths@, j + 1, lengths@.len() as int); assert(total(lengths@, j + 1) == total(lengths@, j) + lengths@[j]); } }
//@endfn

//@fn fixed FixedLayout::new
//@contract
    ensures r.vars@ == vars@, r.first == (if vars@.len() == 0 { None } else { Some(vars@[0].id) })
//@endfn

//@fn fixed Default@FixedLayout::default
//@contract
    ensures r.vars@.len() == 0, r.first is None
//@endfn

//@fn fixed FixedLayout::first
//@contract
    requires self.first is Some
    ensures r == self.first->Some_0
//@endfn

//@fn fixed FixedLayout::try_first
//@contract
    ensures r == self.first
//@endfn

//@fn fixed FixedLayout::var_index
//@contract
    requires self.first is Some
    ensures self.first->Some_0 <= id, r == id - self.first->Some_0, r < self.vars@.len()
//@endfn

//@fn fixed FixedLayout::get
//@contract
    requires self.first is Some
    ensures self.first->Some_0 <= id < self.first->Some_0 + self.vars@.len(), *r == self.vars@[id - self.first->Some_0]
//@endfn

//@fn fixed FixedLayout::try_get
//@contract
    requires self.first is Some
    ensures self.first->Some_0 <= id < self.first->Some_0 + self.vars@.len(), r matches Some(v) && *v == self.vars@[id - self.first->Some_0]
//@endfn

//@fn fixed FixedLayout::len
//@contract
    ensures r == self.vars@.len()
//@endfn

//@fn fixed FixedLayout::is_empty
//@contract
    ensures r == (self.vars@.len() == 0)
//@endfn
}
/// Looking up an id of a layout built from sizes returns the variable with that id and that size.
proof fn lookup(l: FixedLayout, first: u32, sizes: Seq<u32>, id: u32)
    requires l.first == Some(first), l.vars@.len() == sizes.len(), contiguous(l.vars@, first as int), forall|i: int| 0 <= i < sizes.len() ==> (#[trigger] l.vars@[i]).byte_size == sizes[i],
        first <= id < first + sizes.len(),
    ensures l.vars@[id - first].id == id, l.vars@[id - first].byte_size == sizes[id - first]
{}
}
fn main() {}
