use vstd::prelude::*;
verus! {
//@include iter.inc
//@include progsubs.inc
//@include flowsubs.inc
//@include pricesubs.inc
//@heap g : &mut Gr : build_weighted_graph
//@heap g : &mut Gr : compute_max_weight_path prune_unreachable_nodes construct_path init_start relax node_weight_by_label node_total_weight_by_label node_weight_by_ref node_total_weight_by_ref node_dep_by_label
//@heap g : &mut Gr : set_label set_weight mark_start total_weight weight dep_label dep_weight try_weight try_dep_label try_dep_weight
//@sub self\.(label|weight|dep_label|dep_weight)\.set \( ==> g.set_\1(self.l, 
//@sub self\.(label|weight|dep_label|dep_weight)\.get \( \) ==> g.get_\1(self.l)
//@include graph.inc
//@include labels.inc
//@include program.inc
//@include flow.inc
//@include blocks.inc
//@include paths.inc
//@include price.inc
#[verifier::external_body]
pub fn rt_panic<T>() -> (r: T) requires false { unimplemented!() }
pub fn rt_assert(b: bool) requires b {}
#[verifier::external_body]
pub fn vec_of<T>(a: [T; 1]) -> (r: Vec<T>) ensures r@ == seq![a@[0]] { unimplemented!() }
#[verifier::external_body]
pub fn reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
impl Gr {
    #[verifier::external_body]
    pub fn set_label(&mut self, l: L, v: Option<L>) requires old(self).cells().contains_key(l)
        ensures final(self).nodes() == old(self).nodes(), final(self).cells() == old(self).cells().insert(l, W { label: v, ..old(self).cells()[l] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_weight(&mut self, l: L, v: Option<usize>) requires old(self).cells().contains_key(l)
        ensures final(self).nodes() == old(self).nodes(), final(self).cells() == old(self).cells().insert(l, W { weight: v, ..old(self).cells()[l] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_dep_label(&mut self, l: L, v: Option<L>) requires old(self).cells().contains_key(l)
        ensures final(self).nodes() == old(self).nodes(), final(self).cells() == old(self).cells().insert(l, W { dep_label: v, ..old(self).cells()[l] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_dep_weight(&mut self, l: L, v: Option<usize>) requires old(self).cells().contains_key(l)
        ensures final(self).nodes() == old(self).nodes(), final(self).cells() == old(self).cells().insert(l, W { dep_weight: v, ..old(self).cells()[l] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_label(&self, l: L) -> (r: Option<L>) requires self.cells().contains_key(l) ensures r == self.cells()[l].label { unimplemented!() }
    #[verifier::external_body]
    pub fn get_weight(&self, l: L) -> (r: Option<usize>) requires self.cells().contains_key(l) ensures r == self.cells()[l].weight { unimplemented!() }
    #[verifier::external_body]
    pub fn get_dep_label(&self, l: L) -> (r: Option<L>) requires self.cells().contains_key(l) ensures r == self.cells()[l].dep_label { unimplemented!() }
    #[verifier::external_body]
    pub fn get_dep_weight(&self, l: L) -> (r: Option<usize>) requires self.cells().contains_key(l) ensures r == self.cells()[l].dep_weight { unimplemented!() }
}
impl NodeWeight {
//@fn gweight NodeWeight::set_label heap
//@contract
    requires old(g).cells().contains_key(self.l)
    ensures final(g).nodes() == old(g).nodes(), final(g).cells() == old(g).cells().insert(self.l, W { label: Some(label), ..old(g).cells()[self.l] })
//@endfn
//@fn gweight NodeWeight::set_weight heap
//@contract
    requires old(g).cells().contains_key(self.l)
    ensures final(g).nodes() == old(g).nodes(), final(g).cells() == old(g).cells().insert(self.l, W { weight: Some(weight), ..old(g).cells()[self.l] })
//@endfn
//@fn gweight NodeWeight::mark_start heap
//@contract
    requires old(g).cells().contains_key(self.l)
    ensures final(g).nodes() == old(g).nodes(), final(g).cells() == old(g).cells().insert(self.l, W { dep_weight: Some(0), ..old(g).cells()[self.l] })
//@endfn
//@fn gweight NodeWeight::relax heap
//@contract
    requires old(g).cells().contains_key(self.l)
    ensures final(g).nodes() == old(g).nodes(), relaxed(final(g).cells(), old(g).cells(), self.l, dep_label, dep_weight)
//@end
    proof {
        let o = old(g).cells();
        assert(g.cells() =~= o || g.cells() =~= o.insert(self.l, W { dep_label: Some(dep_label), dep_weight: Some(dep_weight), ..o[self.l] }));
    }
//@endfn
//@fn gweight NodeWeight::total_weight heap
//@contract
    requires weighed_at(old(g).cells(), self.l), old(g).cells()[self.l].dep_weight is Some
    ensures *final(g) == *old(g), r == tot(old(g).cells(), self.l)
//@endfn
//@fn gweight NodeWeight::weight heap
//@contract
    requires weighed_at(old(g).cells(), self.l)
    ensures *final(g) == *old(g), r == wt(old(g).cells(), self.l)
//@endfn
//@fn gweight NodeWeight::dep_label heap
//@contract
    requires old(g).cells().contains_key(self.l), old(g).cells()[self.l].dep_label is Some
    ensures *final(g) == *old(g), Some(r) == old(g).cells()[self.l].dep_label
//@endfn
//@fn gweight NodeWeight::try_weight heap
//@contract
    requires old(g).cells().contains_key(self.l)
    ensures *final(g) == *old(g), r == old(g).cells()[self.l].weight
//@endfn
//@fn gweight NodeWeight::try_dep_label heap
//@contract
    requires old(g).cells().contains_key(self.l)
    ensures *final(g) == *old(g), r == old(g).cells()[self.l].dep_label
//@endfn
//@fn gweight NodeWeight::try_dep_weight heap
//@contract
    requires old(g).cells().contains_key(self.l)
    ensures *final(g) == *old(g), r == old(g).cells()[self.l].dep_weight
//@endfn
}
//@item gweight struct:WeightedPath
impl WeightedPath {
//@fn gweight WeightedPath::total
//@contract
    ensures r == self.total
//@endfn
}
// ---- the longest way
pub open spec fn weighed_at(c: Map<L, W>, l: L) -> bool { c.contains_key(l) && c[l].weight is Some }
pub open spec fn wt(c: Map<L, W>, l: L) -> int { c[l].weight->Some_0 as int }
pub open spec fn tot(c: Map<L, W>, l: L) -> int { sat(c[l].dep_weight->Some_0 + wt(c, l)) }
/// The sum of the weights along a way.
pub open spec fn wsum(c: Map<L, W>, p: Seq<L>) -> int decreases p.len() { if p.len() == 0 { 0 } else { wsum(c, p.drop_last()) + wt(c, p.last()) } }
pub open spec fn same_weights(c: Map<L, W>, d: Map<L, W>) -> bool { c.dom() == d.dom() && forall|l: L| #[trigger] wt(c, l) == wt(d, l) && c[l].weight == d[l].weight }
pub proof fn same_sums(c: Map<L, W>, d: Map<L, W>, p: Seq<L>)
    requires same_weights(c, d)
    ensures wsum(c, p) == wsum(d, p)
    decreases p.len()
{ if p.len() > 0 { same_sums(c, d, p.drop_last()); assert(wt(c, p.last()) == wt(d, p.last())); } }
pub open spec fn weighed(n: Map<L, Node>, c: Map<L, W>) -> bool { forall|l: L| #[trigger] n.contains_key(l) ==> weighed_at(c, l) }
/// Edges lead to nodes of higher numbers.
pub open spec fn upward(n: Map<L, Node>) -> bool { forall|a: L, b: L| #[trigger] arc(n, a, b) ==> a.0 < b.0 }
pub open spec fn leads(n: Map<L, Node>, p: Seq<L>, a: L, b: L) -> bool { way(n, p) && p.len() >= 1 && p[0] == a && p[p.len() - 1] == b }
pub open spec fn reaches(n: Map<L, Node>, a: L, b: L) -> bool { exists|p: Seq<L>| #[trigger] leads(n, p, a, b) }
/// t is the maximum of the sums along the ways from a to b.
pub open spec fn is_max(n: Map<L, Node>, c: Map<L, W>, a: L, b: L, t: int) -> bool {
    &&& forall|p: Seq<L>| #[trigger] leads(n, p, a, b) ==> sat(wsum(c, p)) <= t
    &&& exists|p: Seq<L>| #[trigger] leads(n, p, a, b) && sat(wsum(c, p)) == t
}
pub proof fn extend(n: Map<L, Node>, p: Seq<L>, a: L, b: L, x: L)
    requires leads(n, p, a, b), arc(n, b, x)
    ensures leads(n, p.push(x), a, x)
{
    let q = p.push(x);
    assert forall|i: int| 0 <= i < q.len() - 1 implies arc(n, #[trigger] q[i], q[i + 1]) by { if i < p.len() - 1 { assert(arc(n, p[i], p[i + 1])); } }
}
pub proof fn shorten(n: Map<L, Node>, p: Seq<L>, a: L, b: L)
    requires leads(n, p, a, b), p.len() >= 2
    ensures leads(n, p.drop_last(), a, p[p.len() - 2]), arc(n, p[p.len() - 2], b)
{
    let q = p.drop_last();
    assert forall|i: int| 0 <= i < q.len() - 1 implies arc(n, #[trigger] q[i], q[i + 1]) by { assert(arc(n, p[i], p[i + 1])); }
    assert(arc(n, p[p.len() - 2], p[p.len() - 2 + 1]));
}
pub open spec fn relaxed(c: Map<L, W>, o: Map<L, W>, l: L, dl: L, dw: usize) -> bool {
    let hold = o[l].dep_weight is Some && o[l].dep_weight->Some_0 >= dw;
    c == if hold { o } else { o.insert(l, W { dep_label: Some(dl), dep_weight: Some(dw), ..o[l] }) }
}
// removing what cannot be reached
/// Edges from nodes the start leads to are all there still.
pub open spec fn kept(n: Map<L, Node>, n0: Map<L, Node>, start: L) -> bool {
    &&& wf(n) && n.dom() == n0.dom()
    &&& forall|x: L, y: L| #[trigger] arc(n, x, y) ==> arc(n0, x, y)
    &&& forall|x: L, y: L| #[trigger] arc(n0, x, y) && reaches(n0, start, x) ==> arc(n, x, y)
}
pub proof fn kept_without(n: Map<L, Node>, m: Map<L, Node>, n0: Map<L, Node>, start: L, x: L)
    requires kept(n, n0, start), free(n, x), x != start, without(m, n, x)
    ensures kept(m, n0, start)
{
    if reaches(n0, start, x) {
        let p = choose|p: Seq<L>| #[trigger] leads(n0, p, start, x);
        assert(p.len() >= 2);
        shorten(n0, p, start, x);
        assert(reaches(n0, start, p[p.len() - 2]));
        assert(arc(n, p[p.len() - 2], x));
    }
}
pub proof fn kept_ways(n: Map<L, Node>, n0: Map<L, Node>, start: L, p: Seq<L>, b: L)
    requires kept(n, n0, start)
    ensures leads(n, p, start, b) <==> leads(n0, p, start, b)
    decreases p.len()
{
    if leads(n, p, start, b) {
        assert forall|i: int| 0 <= i < p.len() - 1 implies arc(n0, #[trigger] p[i], p[i + 1]) by { assert(arc(n, p[i], p[i + 1])); }
    }
    if leads(n0, p, start, b) && p.len() >= 2 {
        shorten(n0, p, start, b);
        let q = p.drop_last();
        kept_ways(n, n0, start, q, p[p.len() - 2]);
        assert(reaches(n0, start, p[p.len() - 2]));
        extend(n, q, start, p[p.len() - 2], b);
        assert(q.push(b) =~= p);
    } else if leads(n0, p, start, b) { assert(way(n, p)); }
}
/// Nodes with edges out of them.
pub open spec fn busy(n: Map<L, Node>) -> Set<L> { n.dom().filter(|l: L| n[l].outgoing@ != Set::<L>::empty()) }
/// Only the start has edges out of it and none into it.
pub open spec fn pruned(n: Map<L, Node>, start: L) -> bool { forall|x: L, y: L| #[trigger] arc(n, x, y) && x != start ==> !free(n, x) }
pub proof fn busy_less(m: Map<L, Node>, n: Map<L, Node>, x: L)
    requires wf(n), without(m, n, x), n.contains_key(x)
    ensures busy(m).subset_of(busy(n)), busy(m).len() <= busy(n).len(), n[x].outgoing@ != Set::<L>::empty() ==> busy(m).len() < busy(n).len()
{
    assert forall|l: L| busy(m).contains(l) implies busy(n).contains(l) && l != x by {
        empty_sinks(m, l); empty_sinks(n, l);
        let y = choose|y: L| arc(m, l, y); assert(arc(n, l, y));
    }
    vstd::set_lib::lemma_len_subset(busy(m), busy(n));
    if n[x].outgoing@ != Set::<L>::empty() {
        assert(busy(m).subset_of(busy(n).remove(x)));
        vstd::set_lib::lemma_len_subset(busy(m), busy(n).remove(x));
    }
}
//@fn gweight prune_unreachable_nodes heap
//@local (\w+)\.label\(g\) != start ==> \1.label(g) != start
//@contract
    requires of(graph.nodes@, old(g).nodes()), old(g).nodes().contains_key(start)
    ensures of(graph.nodes@, final(g).nodes()), kept(final(g).nodes(), old(g).nodes(), start), pruned(final(g).nodes(), start), final(g).cells() == old(g).cells()
//@inv 0
    invariant of(graph.nodes@, g.nodes()), g.nodes().contains_key(start), kept(g.nodes(), old(g).nodes(), start), g.cells() == old(g).cells()
    ensures pruned(g.nodes(), start)
    decreases busy(g.nodes()).len()
//@top 0
    let ghost na = g.nodes();
//@before 1
    let ghost u0 = unreachable@;
//@inv 1
    invariant
        g.nodes() == na, g.cells() == old(g).cells(), of(graph.nodes@, na), lists_sources(u0, na), 0 <= __it1.i@ <= u0.len(), derefs(__it1.v@, u0),
        forall|i: int| 0 <= i < __kept1@.len() ==> free(na, (#[trigger] __kept1@[i]).l) && __kept1@[i].l != start && na[__kept1@[i].l].outgoing@ != Set::<L>::empty() && listed(u0, __it1.i@, __kept1@[i].l),
        forall|i: int| 0 <= i < __it1.i@ && (#[trigger] u0[i]).l != start && na[u0[i].l].outgoing@ != Set::<L>::empty() ==> __kept1@.len() > 0,
        forall|i: int, j: int| 0 <= i < j < __kept1@.len() ==> (#[trigger] __kept1@[i]).l != (#[trigger] __kept1@[j]).l,
    ensures __it1.i@ == u0.len()
    decreases __it1.v@.len() - __it1.i@
//@top 1
    proof { let k = __it1.i@; if k < u0.len() {
        assert(free(na, u0[k].l));
        assert forall|y: L| #[trigger] listed(u0, k + 1, y) <==> listed(u0, k, y) || y == u0[k].l by { listed_step(u0, k, y); }
        if listed(u0, k, u0[k].l) { let i = choose|i: int| 0 <= i < k && (#[trigger] u0[i]).l == u0[k].l; assert(false); }
    } }
//@after 1
    proof { if __kept1@.len() == 0 {
        assert forall|x: L, y: L| #[trigger] arc(na, x, y) && x != start implies !free(na, x) by {
            if free(na, x) { assert(listed(u0, u0.len() as int, x)); let i = choose|i: int| 0 <= i < u0.len() && (#[trigger] u0[i]).l == x; assert(na[x].outgoing@.contains(y)); }
        }
    } }
//@before 2
    let ghost u = unreachable@;
//@inv 2
    invariant
        u.len() > 0, 0 <= __it2.i@ <= u.len(), derefs(__it2.v@, u), of(graph.nodes@, g.nodes()), g.cells() == old(g).cells(), kept(g.nodes(), old(g).nodes(), start), g.nodes().dom() == na.dom(),
        forall|i: int| 0 <= i < u.len() ==> free(g.nodes(), (#[trigger] u[i]).l) && u[i].l != start,
        forall|i: int| __it2.i@ <= i < u.len() ==> g.nodes()[(#[trigger] u[i]).l].outgoing@ != Set::<L>::empty(),
        forall|i: int, j: int| 0 <= i < j < u.len() ==> (#[trigger] u[i]).l != (#[trigger] u[j]).l,
        busy(g.nodes()).len() <= busy(na).len(), __it2.i@ > 0 ==> busy(g.nodes()).len() < busy(na).len(),
    ensures __it2.i@ == u.len()
    decreases __it2.v@.len() - __it2.i@
//@top 2
    let ghost nb = g.nodes(); let ghost k = __it2.i@;
    proof { if k < u.len() { assert(free(nb, u[k].l)); } }
//@bot 2
    proof {
        let m = g.nodes();
        kept_without(nb, m, old(g).nodes(), start, u[k].l);
        busy_less(m, nb, u[k].l);
        assert forall|i: int| 0 <= i < u.len() implies free(m, (#[trigger] u[i]).l) by { assert forall|a: L| !arc(m, a, u[i].l) by { assert(!arc(nb, a, u[i].l)); } }
        assert forall|i: int| k + 1 <= i < u.len() implies m[(#[trigger] u[i]).l].outgoing@ != Set::<L>::empty() by {
            empty_sinks(nb, u[i].l); empty_sinks(m, u[i].l);
            let y = choose|y: L| arc(nb, u[i].l, y); assert(arc(m, u[i].l, y));
        }
    }
//@endfn
// relaxing along the edges
pub open spec fn removed(p: Set<L>, s: Option<L>, cs: Set<L>, x: L, y: L) -> bool { p.contains(x) || (s == Some(x) && cs.contains(y)) }
pub open spec fn visited(p: Set<L>, s: Option<L>, q: Seq<NodeRef>, x: L) -> bool { p.contains(x) || s == Some(x) || waits(q, x) }
pub open spec fn dep_from(n1: Map<L, Node>, c: Map<L, W>, x: L, y: L) -> bool { arc(n1, y, x) && c[y].dep_weight is Some && c[x].dep_weight->Some_0 == tot(c, y) }
/// n1: the graph before; p: nodes done with; s: the node whose edges to cs are done; q: the queue.
pub open spec fn relaxing(n: Map<L, Node>, n1: Map<L, Node>, c: Map<L, W>, c1: Map<L, W>, start: L, p: Set<L>, s: Option<L>, cs: Set<L>, q: Seq<NodeRef>) -> bool {
    &&& wf(n) && n.dom() == n1.dom()
    &&& forall|x: L, y: L| #[trigger] arc(n, x, y) <==> arc(n1, x, y) && !removed(p, s, cs, x, y)
    &&& forall|x: L| #[trigger] visited(p, s, q, x) ==> free(n, x) && c[x].dep_weight is Some
    &&& forall|i: int| 0 <= i < q.len() ==> !p.contains((#[trigger] q[i]).l) && s != Some(q[i].l)
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).l != (#[trigger] q[j]).l
    &&& s is Some ==> !p.contains(s->Some_0)
    &&& visited(p, s, q, start)
    &&& forall|x: L| x != start && n1.contains_key(x) && !free(n1, x) && #[trigger] free(n, x) ==> visited(p, s, q, x)
    &&& c[start].dep_weight == Some(0usize)
    &&& forall|x: L| x != start && n1.contains_key(x) && (#[trigger] c[x]).dep_weight is Some ==> c[x].dep_label is Some && dep_from(n1, c, x, c[x].dep_label->Some_0) && removed(p, s, cs, c[x].dep_label->Some_0, x)
    &&& forall|a: L, x: L| #[trigger] arc(n1, a, x) && removed(p, s, cs, a, x) ==> c[x].dep_weight is Some && c[x].dep_weight->Some_0 >= tot(c, a)
    &&& same_weights(c, c1)
}
pub proof fn relax_pop(n: Map<L, Node>, n1: Map<L, Node>, c: Map<L, W>, c1: Map<L, W>, start: L, p: Set<L>, q: Seq<NodeRef>)
    requires relaxing(n, n1, c, c1, start, p, None, Set::empty(), q), q.len() > 0
    ensures relaxing(n, n1, c, c1, start, p, Some(q.last().l), Set::empty(), q.drop_last()), visited(p, None, q, q.last().l)
{
    let s = q.last().l; let r = q.drop_last();
    assert(q[q.len() - 1].l == s);
    assert forall|x: L| #[trigger] visited(p, Some(s), r, x) <==> visited(p, None, q, x) by {
        if waits(r, x) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).l == x; assert(q[i].l == x); }
        if waits(q, x) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).l == x; if i < r.len() { assert(r[i].l == x); } }
    }
    assert forall|i: int| 0 <= i < r.len() implies !p.contains((#[trigger] r[i]).l) && Some(s) != Some(r[i].l) by { assert(q[i].l != q[q.len() - 1].l); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).l != (#[trigger] r[j]).l by { assert(q[i].l != q[j].l); }
    assert forall|x: L, y: L| removed(p, Some(s), Set::empty(), x, y) == #[trigger] removed(p, None, Set::empty(), x, y) by {}
    assert forall|x: L, y: L| #[trigger] arc(n, x, y) <==> arc(n1, x, y) && !removed(p, Some(s), Set::empty(), x, y) by { assert(removed(p, Some(s), Set::empty(), x, y) == removed(p, None, Set::empty(), x, y)); }
}
pub proof fn relax_done(n: Map<L, Node>, n1: Map<L, Node>, c: Map<L, W>, c1: Map<L, W>, start: L, p: Set<L>, s: L, cs: Set<L>, q: Seq<NodeRef>)
    requires relaxing(n, n1, c, c1, start, p, Some(s), cs, q), n1.contains_key(s), forall|y: L| arc(n1, s, y) <==> cs.contains(y)
    ensures relaxing(n, n1, c, c1, start, p.insert(s), None, Set::empty(), q)
{
    let p2 = p.insert(s);
    assert forall|x: L| #[trigger] visited(p2, None, q, x) <==> visited(p, Some(s), q, x) by {}
    assert forall|x: L, y: L| arc(n1, x, y) implies removed(p, Some(s), cs, x, y) == #[trigger] removed(p2, None, Set::empty(), x, y) by {}
    assert forall|x: L, y: L| #[trigger] arc(n, x, y) <==> arc(n1, x, y) && !removed(p2, None, Set::empty(), x, y) by { if arc(n1, x, y) { assert(removed(p, Some(s), cs, x, y) == removed(p2, None, Set::empty(), x, y)); } }
    assert forall|x: L| x != start && n1.contains_key(x) && (#[trigger] c[x]).dep_weight is Some implies removed(p2, None, Set::empty(), c[x].dep_label->Some_0, x) by { assert(removed(p, Some(s), cs, c[x].dep_label->Some_0, x)); }
    assert forall|a: L, x: L| #[trigger] arc(n1, a, x) && removed(p2, None, Set::empty(), a, x) implies c[x].dep_weight is Some && c[x].dep_weight->Some_0 >= tot(c, a) by { assert(removed(p, Some(s), cs, a, x)); }
}
#[verifier::spinoff_prover]
pub proof fn relax_step(n: Map<L, Node>, m: Map<L, Node>, n1: Map<L, Node>, c: Map<L, W>, d: Map<L, W>, c1: Map<L, W>, start: L, p: Set<L>, s: L, cs: Set<L>, q: Seq<NodeRef>, x: NodeRef, q2: Seq<NodeRef>)
    requires relaxing(n, n1, c, c1, start, p, Some(s), cs, q), arc(n, s, x.l), cut(m, n, s, x.l), upward(n1), c.contains_key(x.l), relaxed(d, c, x.l, s, tot(c, s) as usize), 0 <= tot(c, s),
        q2 == (if free(m, x.l) { q.push(x) } else { q }),
    ensures relaxing(m, n1, d, c1, start, p, Some(s), cs.insert(x.l), q2)
{
    let cs2 = cs.insert(x.l); let t = x.l;
    assert(arc(n1, s, t)); assert(s.0 < t.0);
    assert(!visited(p, Some(s), q, t)) by { if visited(p, Some(s), q, t) { assert(free(n, t)); assert(!arc(n, s, t)); } }
    assert(t != start);
    assert(forall|l: L| l != t ==> #[trigger] d[l] == c[l]);
    assert(d[t].weight == c[t].weight);
    assert(d[t].dep_weight is Some && d[t].dep_weight->Some_0 >= tot(c, s));
    assert forall|l: L| #[trigger] wt(d, l) == wt(c1, l) && d[l].weight == c1[l].weight by { assert(wt(c, l) == wt(c1, l)); }
    assert(d.dom() =~= c1.dom());
    assert forall|l: L| l != t implies #[trigger] tot(d, l) == tot(c, l) by {}
    assert forall|y: L| #[trigger] visited(p, Some(s), q2, y) <==> visited(p, Some(s), q, y) || (free(m, t) && y == t) by {
        if free(m, t) { assert(q2[q.len() as int].l == t); }
        if waits(q2, y) { let i = choose|i: int| 0 <= i < q2.len() && (#[trigger] q2[i]).l == y; if i < q.len() { assert(q[i].l == y); } }
        if waits(q, y) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).l == y; assert(q2[i].l == y); }
    }
    assert forall|a: L, b: L| #[trigger] arc(m, a, b) <==> arc(n1, a, b) && !removed(p, Some(s), cs2, a, b) by { assert(arc(n, a, b) <==> arc(n1, a, b) && !removed(p, Some(s), cs, a, b)); }
    assert forall|y: L| #[trigger] visited(p, Some(s), q2, y) implies free(m, y) && d[y].dep_weight is Some by {
        if visited(p, Some(s), q, y) { assert(y != t); assert(free(n, y)); assert forall|a: L| !arc(m, a, y) by { assert(!arc(n, a, y)); } }
    }
    assert forall|i: int| 0 <= i < q2.len() implies !p.contains((#[trigger] q2[i]).l) && Some(s) != Some(q2[i].l) by { if i < q.len() { assert(q2[i] == q[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < q2.len() implies (#[trigger] q2[i]).l != (#[trigger] q2[j]).l by { assert(q2[i] == q[i]); if j < q.len() { assert(q2[j] == q[j]); } else { if q[i].l == t { assert(waits(q, t)); } } }
    assert forall|y: L| y != start && n1.contains_key(y) && !free(n1, y) && #[trigger] free(m, y) implies visited(p, Some(s), q2, y) by {
        if y != t { assert forall|a: L| !arc(n, a, y) by { assert(!arc(m, a, y)); } assert(free(n, y)); }
    }
    assert(visited(p, Some(s), q, start)); assert(visited(p, Some(s), q2, start));
    assert forall|y: L| y != start && n1.contains_key(y) && (#[trigger] d[y]).dep_weight is Some implies d[y].dep_label is Some && dep_from(n1, d, y, d[y].dep_label->Some_0) && removed(p, Some(s), cs2, d[y].dep_label->Some_0, y) by {
        assert(visited(p, Some(s), q, s));
        if c[y].dep_weight is Some { let z = c[y].dep_label->Some_0; assert(removed(p, Some(s), cs, z, y)); assert(visited(p, Some(s), q, z)); assert(z != t); assert(tot(d, z) == tot(c, z)); }
        assert(tot(d, s) == tot(c, s));
    }
    assert forall|a: L, y: L| #[trigger] arc(n1, a, y) && removed(p, Some(s), cs2, a, y) implies d[y].dep_weight is Some && d[y].dep_weight->Some_0 >= tot(d, a) by {
        assert(visited(p, Some(s), q, a)); assert(a != t); assert(tot(d, a) == tot(c, a));
        if !removed(p, Some(s), cs, a, y) { assert(a == s && y == t); }
    }
}
/// What a node's cells say is the sum along a way from the start.
pub proof fn attained(n: Map<L, Node>, n1: Map<L, Node>, c: Map<L, W>, c1: Map<L, W>, start: L, p: Set<L>, s: Option<L>, cs: Set<L>, q: Seq<NodeRef>, x: L) -> (w: Seq<L>)
    requires relaxing(n, n1, c, c1, start, p, s, cs, q), upward(n1), wf(n1), n1.contains_key(x), c[x].dep_weight is Some
    ensures leads(n1, w, start, x), sat(wsum(c1, w)) == tot(c, x)
    decreases x.0
{
    assert(wt(c, x) == wt(c1, x));
    if x == start {
        let w = seq![start];
        assert(w.drop_last() =~= Seq::<L>::empty());
        assert(wsum(c1, w.drop_last()) == 0);
        assert(w.last() == start);
        w
    } else {
        let y = c[x].dep_label->Some_0;
        assert(dep_from(n1, c, x, y));
        assert(arc(n1, y, x));
        let v = attained(n, n1, c, c1, start, p, s, cs, q, y);
        extend(n1, v, start, y, x);
        assert(v.push(x).drop_last() =~= v);
        v.push(x)
    }
}
/// Nothing leads to the start, and every node with an edge out of it is the start or has one into it.
pub proof fn start_free(n1: Map<L, Node>, start: L, y: L)
    requires wf(n1), upward(n1), pruned(n1, start), n1.contains_key(start), n1.contains_key(y)
    ensures y.0 < start.0 ==> forall|z: L| !arc(n1, y, z)
    decreases y.0
{
    if y.0 < start.0 && exists|z: L| arc(n1, y, z) {
        let z = choose|z: L| arc(n1, y, z);
        assert(!free(n1, y));
        let a = choose|a: L| arc(n1, a, y);
        start_free(n1, start, a);
    }
}
/// With an empty queue no edge is left.
pub proof fn none_left(n: Map<L, Node>, n1: Map<L, Node>, c: Map<L, W>, c1: Map<L, W>, start: L, p: Set<L>, x: L, y: L)
    requires relaxing(n, n1, c, c1, start, p, None, Set::empty(), Seq::empty()), wf(n1), upward(n1), pruned(n1, start)
    ensures !arc(n, x, y)
    decreases x.0
{
    if arc(n, x, y) {
        assert(arc(n1, x, y)); assert(!p.contains(x));
        if x == start { assert(visited(p, None, Seq::empty(), start)); assert(false); }
        assert(!free(n1, x));
        if exists|a: L| arc(n, a, x) { let a = choose|a: L| arc(n, a, x); assert(arc(n1, a, x)); none_left(n, n1, c, c1, start, p, a, x); }
        assert(free(n, x)); assert(n1.contains_key(x));
        assert(visited(p, None, Seq::<NodeRef>::empty(), x));
    }
}
/// No way from the start has a larger sum.
pub proof fn dominates(n: Map<L, Node>, n1: Map<L, Node>, c: Map<L, W>, c1: Map<L, W>, start: L, p: Set<L>, w: Seq<L>, x: L)
    requires relaxing(n, n1, c, c1, start, p, None, Set::empty(), Seq::empty()), wf(n1), upward(n1), forall|x: L, y: L| !arc(n, x, y), leads(n1, w, start, x)
    ensures c[x].dep_weight is Some, sat(wsum(c1, w)) <= tot(c, x)
    decreases w.len()
{
    assert(wt(c, x) == wt(c1, x));
    if w.len() == 1 { assert(w.drop_last() =~= Seq::<L>::empty()); assert(wsum(c1, w.drop_last()) == 0); }
    else {
        shorten(n1, w, start, x);
        let a = w[w.len() - 2];
        dominates(n, n1, c, c1, start, p, w.drop_last(), a);
        assert(!arc(n, a, x)); assert(removed(p, None, Set::empty(), a, x));
        assert(w.last() == x);
    }
}
//@fn gweight init_start heap
//@contract
    requires of(graph.nodes@, old(g).nodes()), old(g).nodes().contains_key(start), old(g).cells().contains_key(start)
    ensures final(g).nodes() == old(g).nodes(), final(g).cells() == old(g).cells().insert(start, W { dep_weight: Some(0), ..old(g).cells()[start] })
//@endfn
//@fn gweight relax heap
//@local node_data\.relax\(g, dep_node\.label\(g\), dep_weight\) ==> let __from = dep_node.label(g); node_data.relax(g, __from, dep_weight)
//@contract
    requires of(graph.nodes@, old(g).nodes()), old(g).nodes().contains_key(node.l), old(g).nodes().contains_key(dep_node.l), old(g).cells().contains_key(node.l),
        weighed_at(old(g).cells(), dep_node.l), old(g).cells()[dep_node.l].dep_weight is Some,
    ensures final(g).nodes() == old(g).nodes(), relaxed(final(g).cells(), old(g).cells(), node.l, dep_node.l, tot(old(g).cells(), dep_node.l) as usize)
//@endfn
//@fn gweight node_weight_by_ref heap
//@contract
    requires wf(old(g).nodes()), old(g).nodes().contains_key(node.l), weighed_at(old(g).cells(), node.l)
    ensures *final(g) == *old(g), r == wt(old(g).cells(), node.l)
//@endfn
//@fn gweight node_total_weight_by_ref heap
//@contract
    requires wf(old(g).nodes()), old(g).nodes().contains_key(node.l), weighed_at(old(g).cells(), node.l), old(g).cells()[node.l].dep_weight is Some
    ensures *final(g) == *old(g), r == tot(old(g).cells(), node.l)
//@endfn
//@fn gweight node_weight_by_label heap
//@contract
    requires of(graph.nodes@, old(g).nodes()), old(g).nodes().contains_key(label), weighed_at(old(g).cells(), label)
    ensures *final(g) == *old(g), r == wt(old(g).cells(), label)
//@endfn
//@fn gweight node_total_weight_by_label heap
//@contract
    requires of(graph.nodes@, old(g).nodes()), old(g).nodes().contains_key(label), weighed_at(old(g).cells(), label), old(g).cells()[label].dep_weight is Some
    ensures *final(g) == *old(g), r == tot(old(g).cells(), label)
//@endfn
//@fn gweight node_dep_by_label heap
//@contract
    requires of(graph.nodes@, old(g).nodes()), old(g).nodes().contains_key(label), old(g).cells().contains_key(label), old(g).cells()[label].dep_label is Some
    ensures *final(g) == *old(g), Some(r) == old(g).cells()[label].dep_label
//@endfn
/// From every node with a dependency the dependencies lead down to the start.
pub open spec fn chained(n: Map<L, Node>, c: Map<L, W>, start: L) -> bool {
    forall|x: L| #[trigger] n.contains_key(x) && x != start && c[x].dep_weight is Some ==> c[x].dep_label is Some && chained_to(n, c, x, c[x].dep_label->Some_0)
}
pub open spec fn chained_to(n: Map<L, Node>, c: Map<L, W>, x: L, y: L) -> bool { y.0 < x.0 && n.contains_key(y) && c[y].dep_weight is Some }
//@fn gweight construct_path heap
//@local path\.reverse \( \) ==> reverse(&mut path)
//@contract
    requires of(graph.nodes@, old(g).nodes()), weighed(old(g).nodes(), old(g).cells()), old(g).nodes().contains_key(start), old(g).nodes().contains_key(end),
        chained(old(g).nodes(), old(g).cells(), start), old(g).cells()[end].dep_weight is Some,
    ensures *final(g) == *old(g), r.total == tot(old(g).cells(), end)
//@inv 0
    invariant
        *g == *old(g), of(graph.nodes@, g.nodes()), weighed(g.nodes(), g.cells()), chained(g.nodes(), g.cells(), start),
        g.nodes().contains_key(label), g.cells()[label].dep_weight is Some, g.nodes().contains_key(start),
    decreases label.0
//@top 0
    proof { assert(weighed_at(g.cells(), label)); let y = g.cells()[label].dep_label->Some_0; assert(chained_to(g.nodes(), g.cells(), label, y)); }
//@after 0
    proof { assert(weighed_at(g.cells(), start)); assert(weighed_at(g.cells(), end)); }
//@endfn
//@fn gweight compute_max_weight_path heap
//@contract
    requires of(graph.nodes@, old(g).nodes()), old(g).nodes().contains_key(start), old(g).nodes().contains_key(end), upward(old(g).nodes()),
        weighed(old(g).nodes(), old(g).cells()), forall|l: L| #[trigger] old(g).nodes().contains_key(l) ==> old(g).cells()[l].dep_weight is None,
        reaches(old(g).nodes(), start, end),
    ensures is_max(old(g).nodes(), old(g).cells(), start, end, r.total as int)
//@before 0
    let ghost n0 = old(g).nodes(); let ghost n1 = g.nodes(); let ghost c1 = g.cells(); let ghost mut p = Set::<L>::empty();
    proof {
        assert(upward(n1));
        assert(free(n1, start)) by { assert forall|a: L| !arc(n1, a, start) by { if arc(n1, a, start) { start_free(n1, start, a); } } }
        assert(queued@[0].l == start);
        assert(waits(queued@, start));
        assert forall|x: L| #[trigger] visited(p, None, queued@, x) implies x == start by { let i = choose|i: int| 0 <= i < queued@.len() && (#[trigger] queued@[i]).l == x; assert(queued@[i].l == start); }
        assert(relaxing(n1, n1, c1, c1, start, p, None, Set::empty(), queued@));
        assert(c1.dom() =~= old(g).cells().dom()); assert(c1[start].weight == old(g).cells()[start].weight);
        assert(same_weights(c1, old(g).cells()));
    }
//@inv 0
    invariant
        of(graph.nodes@, g.nodes()), wf(n1), upward(n1), pruned(n1, start), n1.contains_key(start), weighed(n1, c1),
        relaxing(g.nodes(), n1, g.cells(), c1, start, p, None, Set::empty(), queued@),
        p.subset_of(n1.dom()), touched_end <==> p.contains(end),
    decreases n1.dom().len() - p.len()
//@top 0
    proof { relax_pop(g.nodes(), n1, g.cells(), c1, start, p, queued@); assert(queued@.last() == queued@[queued@.len() - 1]); }
    let ghost s = queued@.last().l; let ghost mut cs = Set::<L>::empty();
//@before 1
    let ghost outs1 = n1[s].outgoing@;
    proof {
        assert(visited(p, Some(s), queued@, s)); assert(n1.contains_key(s));
        assert forall|y: L| g.nodes()[s].outgoing@.contains(y) <==> outs1.contains(y) by { assert(arc(g.nodes(), s, y) <==> arc(n1, s, y)); }
        assert(g.nodes()[s].outgoing@ =~= outs1);
    }
//@inv 1
    invariant
        of(graph.nodes@, g.nodes()), wf(n1), upward(n1), pruned(n1, start), n1.contains_key(s), weighed(n1, c1), source.l == s,
        outs1 == n1[s].outgoing@, lists(__it1.v@, outs1), 0 <= __it1.i@ <= __it1.v@.len(), forall|y: L| #[trigger] cs.contains(y) <==> listed(__it1.v@, __it1.i@, y),
        relaxing(g.nodes(), n1, g.cells(), c1, start, p, Some(s), cs, queued@),
        p.subset_of(n1.dom()), touched_end <==> p.contains(end) || s == end,
    ensures forall|y: L| arc(n1, s, y) <==> cs.contains(y)
    decreases __it1.v@.len() - __it1.i@
//@top 1
    let ghost na = g.nodes(); let ghost ca = g.cells(); let ghost k = __it1.i@; let ghost v = __it1.v@; let ghost qa = queued@;
    proof {
        if k < v.len() {
            let t = v[k].l;
            assert(outs1.contains(t)); assert(arc(n1, s, t)); assert(n1.contains_key(t));
            if listed(v, k, t) { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i]).l == t; assert(false); }
            assert(!cs.contains(t)); assert(!removed(p, Some(s), cs, s, t)); assert(arc(na, s, t));
            assert(weighed_at(c1, s)); assert(weighed_at(c1, t)); assert(ca.dom() == c1.dom()); assert(wt(ca, s) == wt(c1, s)); assert(wt(ca, t) == wt(c1, t));
            assert(visited(p, Some(s), queued@, s));
            assert forall|y: L| #[trigger] listed(v, k + 1, y) <==> listed(v, k, y) || y == t by { listed_step(v, k, y); }
        } else {
            assert forall|y: L| arc(n1, s, y) <==> cs.contains(y) by {
                if arc(n1, s, y) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).l == y; assert(listed(v, k, y)); }
                if listed(v, k, y) { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i]).l == y; }
            }
        }
    }
//@bot 1
    proof {
        empty_sources(g.nodes(), v[k].l);
        relax_step(na, g.nodes(), n1, ca, g.cells(), c1, start, p, s, cs, qa, v[k], queued@);
        cs = cs.insert(v[k].l);
    }
//@bot 0
    proof {
        relax_done(g.nodes(), n1, g.cells(), c1, start, p, s, cs, queued@);
        vstd::set_lib::lemma_len_subset(p.insert(s), n1.dom());
        p = p.insert(s);
    }
//@after 0
    let ghost ce = g.cells();
    proof {
        assert(queued@ =~= Seq::<NodeRef>::empty());
        let n = g.nodes();
        assert forall|x: L, y: L| !arc(n, x, y) by { none_left(n, n1, ce, c1, start, p, x, y); }
        let w = choose|w: Seq<L>| #[trigger] leads(n0, w, start, end);
        kept_ways(n1, n0, start, w, end);
        if end == start { assert(visited(p, None, queued@, start)); }
        else {
            shorten(n1, w, start, end);
            assert(!free(n1, end)); assert(free(n, end));
            assert(visited(p, None, queued@, end));
        }
        assert(touched_end);
        assert(visited(p, None, queued@, end));
        assert forall|l: L| #[trigger] n.contains_key(l) implies weighed_at(ce, l) by { assert(weighed_at(c1, l)); assert(wt(ce, l) == wt(c1, l)); }
        assert forall|x: L| #[trigger] n.contains_key(x) && x != start && ce[x].dep_weight is Some implies ce[x].dep_label is Some && chained_to(n, ce, x, ce[x].dep_label->Some_0) by { assert(dep_from(n1, ce, x, ce[x].dep_label->Some_0)); }
        let m = attained(n, n1, ce, c1, start, p, None, Set::empty(), queued@, end);
        kept_ways(n1, n0, start, m, end);
        same_sums(c1, old(g).cells(), m);
        assert(leads(n0, m, start, end) && sat(wsum(old(g).cells(), m)) == tot(ce, end));
        assert forall|u: Seq<L>| #[trigger] leads(n0, u, start, end) implies sat(wsum(old(g).cells(), u)) <= tot(ce, end) by {
            kept_ways(n1, n0, start, u, end);
            dominates(n, n1, ce, c1, start, p, u, end);
            same_sums(c1, old(g).cells(), u);
        }
        assert(is_max(n0, old(g).cells(), start, end, tot(ce, end)));
    }
//@endfn
// ---- a function's price
/// Proved in cfg.rs.
#[verifier::external_body]
pub fn build_func_cfg<'f>(func: &'f Function<'f>) -> (r: CFG<'f>) requires shaped(func.code@) ensures depicts(r.blocks@, func.code@) { unimplemented!() }
impl Imports {
//@fn pimp Imports::try_resolve
//@contract
    ensures r is Some == self.inner@.contains_key(fn_index), r matches Some(x) ==> x.0@ == self.inner@[fn_index].0@ && x.1@ == self.inner@[fn_index].1@
//@endfn
}
impl<'f> Block<'f> {
//@fn gblock Block::ops
//@local & \[Op\] ==> &Vec<Op<'f>>
//@contract
    ensures *r == self.ops
//@endfn
}
impl<'f> CFG<'f> {
//@fn gcfg CFG::blocks
//@local & \[Block\] ==> &Vec<Block<'f>>
//@contract
    ensures *r == self.blocks
//@endfn
//@fn gcfg CFG::end
//@contract
    requires self.blocks@.len() > 0
    ensures r.0 == self.blocks@.len() - 1
//@endfn
}
pub open spec fn ops_known(im: Map<F, (String, String)>, fp: Map<F, usize>, ops: Seq<Op>) -> bool { forall|k: int| 0 <= k < ops.len() ==> known(im, fp, *(#[trigger] ops[k]).raw) }
/// The summed prices of instructions.
pub open spec fn psum(pr: Prices, ops: Seq<Op>, k: int) -> int decreases k { if k <= 0 { 0 } else { psum(pr, ops, k - 1) + pr(*ops[k - 1].raw) } }
//@fn gpcfg resolve_call_price
//@contract
    requires *op.raw is Call, known(imports.inner@, func_price.of(), *op.raw)
    ensures r == price_of(*resolver, imports.inner@, func_price.of(), *op.raw)
//@endfn
//@fn gpcfg resolve_op
//@contract
    requires known(imports.inner@, func_price.of(), *op.raw)
    ensures r == price_of(*resolver, imports.inner@, func_price.of(), *op.raw)
//@endfn
//@fn gpcfg compute_block_price
//@contract
    requires ops_known(imports.inner@, func_price.of(), block.ops@)
    ensures r == sat(psum(prices(*resolver, imports.inner@, func_price.of()), block.ops@, block.ops@.len() as int))
//@inv 0
    invariant
        ops_known(imports.inner@, func_price.of(), block.ops@), 0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == block.ops@.len(), forall|i: int| 0 <= i < __it0.v@.len() ==> *(#[trigger] __it0.v@[i]) == block.ops@[i],
        acc == sat(psum(prices(*resolver, imports.inner@, func_price.of()), block.ops@, __it0.i@)),
    ensures __it0.i@ == block.ops@.len()
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost k = __it0.i@;
    proof { if k < block.ops@.len() { assert(known(imports.inner@, func_price.of(), *block.ops@[k].raw)); } }
//@endfn
pub open spec fn block_cost(bs: Seq<Block>, pr: Prices, x: int) -> int { psum(pr, bs[x].ops@, bs[x].ops@.len() as int) }
pub open spec fn weighs(bs: Seq<Block>, pr: Prices, c: Map<L, W>, l: L) -> bool { c.contains_key(l) && c[l].weight == Some(sat(block_cost(bs, pr, l.0 as int)) as usize) && c[l].dep_weight is None }
/// Nodes for the first k blocks, with their prices.
pub open spec fn noded(bs: Seq<Block>, pr: Prices, n: Map<L, Node>, c: Map<L, W>, k: int) -> bool {
    &&& forall|l: L| #[trigger] n.contains_key(l) <==> l.0 < k
    &&& forall|l: L| #[trigger] n.contains_key(l) ==> weighs(bs, pr, c, l)
}
pub open spec fn numbered(bs: Seq<Block>) -> bool { forall|x: int| 0 <= x < bs.len() ==> (#[trigger] bs[x]).num.0 == x }
pub open spec fn edged(bs: Seq<Block>) -> bool { forall|x: int, e: Edge| 0 <= x < bs.len() && #[trigger] out_edge(bs[x], e) ==> e.src().0 == x && 0 <= e.tgt().0 < bs.len() }
pub open spec fn edge_at(v: Seq<&Edge>, i: int, j: int, x: L, y: L) -> bool { 0 <= j < i && v[j].src() == x && v[j].tgt() == y }
/// Edges of the first k blocks, and the first i of the next one's.
pub open spec fn linked(bs: Seq<Block>, n: Map<L, Node>, k: int, v: Seq<&Edge>, i: int) -> bool {
    forall|x: L, y: L| #[trigger] arc(n, x, y) <==> (x.0 < k && joined_blocks(bs, x.0 as int, y.0 as int)) || exists|j: int| #[trigger] edge_at(v, i, j, x, y)
}
pub open spec fn pictures(bs: Seq<Block>, pr: Prices, n: Map<L, Node>, c: Map<L, W>) -> bool {
    &&& noded(bs, pr, n, c, bs.len() as int)
    &&& forall|x: L, y: L| #[trigger] arc(n, x, y) <==> joined_blocks(bs, x.0 as int, y.0 as int)
}
proof fn linked_edge(bs: Seq<Block>, n: Map<L, Node>, m: Map<L, Node>, k: int, v: Seq<&Edge>, i: int)
    requires linked(bs, n, k, v, i), 0 <= i < v.len(), joined(m, n, v[i].src(), v[i].tgt())
    ensures linked(bs, m, k, v, i + 1)
{
    assert forall|x: L, y: L| #[trigger] arc(m, x, y) <==> (x.0 < k && joined_blocks(bs, x.0 as int, y.0 as int)) || exists|j: int| #[trigger] edge_at(v, i + 1, j, x, y) by {
        if exists|j: int| #[trigger] edge_at(v, i + 1, j, x, y) { let j = choose|j: int| #[trigger] edge_at(v, i + 1, j, x, y); if j < i { assert(edge_at(v, i, j, x, y)); assert(arc(n, x, y)); } }
        if arc(n, x, y) && exists|j: int| #[trigger] edge_at(v, i, j, x, y) { let j = choose|j: int| #[trigger] edge_at(v, i, j, x, y); assert(edge_at(v, i + 1, j, x, y)); }
        if x == v[i].src() && y == v[i].tgt() { assert(edge_at(v, i + 1, i, x, y)); }
    }
}
proof fn linked_block(bs: Seq<Block>, n: Map<L, Node>, k: int, v: Seq<&Edge>)
    requires linked(bs, n, k, v, v.len() as int), 0 <= k < bs.len(), edged(bs),
        forall|i: int| 0 <= i < v.len() ==> out_edge(bs[k], *(#[trigger] v[i])), forall|e: Edge| bs[k].outgoing_edges@.contains(e) ==> exists|i: int| 0 <= i < v.len() && *(#[trigger] v[i]) == e,
    ensures linked(bs, n, k + 1, Seq::empty(), 0)
{
    let l = v.len() as int;
    assert forall|x: L, y: L| #[trigger] arc(n, x, y) <==> (x.0 < k + 1 && joined_blocks(bs, x.0 as int, y.0 as int)) || exists|j: int| #[trigger] edge_at(Seq::empty(), 0, j, x, y) by {
        if exists|j: int| #[trigger] edge_at(v, l, j, x, y) {
            let j = choose|j: int| #[trigger] edge_at(v, l, j, x, y);
            assert(out_edge(bs[k], *v[j])); assert(x.0 == k); assert(joined_blocks(bs, x.0 as int, y.0 as int));
        }
        if x.0 == k && joined_blocks(bs, x.0 as int, y.0 as int) {
            let e = choose|e: Edge| #[trigger] out_edge(bs[k], e) && e.tgt().0 == y.0;
            assert(e.src().0 == k);
            let j = choose|j: int| 0 <= j < v.len() && *(#[trigger] v[j]) == e;
            assert(edge_at(v, l, j, x, y));
        }
    }
}
//@fn gpcfg build_weighted_graph heap
//@local \( cfg\.blocks \( \) \)\.model_iter \( \) ==> (cfg.blocks()).model_iter_ref()
//@local (let (?:mut )?data) : & NodeWeight (?:< \w+ >)? = node_ref\.data \( \) ==> \1 = *node_ref.data()
//@contract
    requires old(g).nodes() == Map::<L, Node>::empty(), numbered(cfg.blocks@), edged(cfg.blocks@),
        forall|x: int| 0 <= x < cfg.blocks@.len() ==> ops_known(imports.inner@, func_price.of(), (#[trigger] cfg.blocks@[x]).ops@),
    ensures of(r.nodes@, final(g).nodes()), pictures(cfg.blocks@, prices(*resolver, imports.inner@, func_price.of()), final(g).nodes(), final(g).cells())
//@begin
    let ghost bs = cfg.blocks@; let ghost pr = prices(*resolver, imports.inner@, func_price.of());
//@inv 0
    invariant
        bs == cfg.blocks@, pr == prices(*resolver, imports.inner@, func_price.of()), numbered(bs), forall|x: int| 0 <= x < bs.len() ==> ops_known(imports.inner@, func_price.of(), (#[trigger] bs[x]).ops@),
        0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == bs.len(), forall|i: int| 0 <= i < bs.len() ==> *(#[trigger] __it0.v@[i]) == bs[i],
        of(builder.nodes@, g.nodes()), noded(bs, pr, g.nodes(), g.cells(), __it0.i@), forall|x: L, y: L| !(#[trigger] arc(g.nodes(), x, y)),
    ensures __it0.i@ == bs.len()
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost (n1, c1, k) = (g.nodes(), g.cells(), __it0.i@);
    proof { if k < bs.len() { assert(bs[k].num.0 == k); assert(ops_known(imports.inner@, func_price.of(), bs[k].ops@)); assert(!n1.contains_key(bs[k].num)); } }
//@bot 0
    proof {
        let n = g.nodes(); let c = g.cells(); let x = bs[k].num;
        assert(n.dom() =~= n1.dom().insert(x));
        same_edges(n1, n);
        assert forall|l: L| #[trigger] n.contains_key(l) implies weighs(bs, pr, c, l) by { if l != x { assert(n1.contains_key(l)); assert(weighs(bs, pr, c1, l)); } }
    }
//@before 1
    proof { assert(linked(bs, g.nodes(), 0, Seq::empty(), 0)); }
//@inv 1
    invariant
        bs == cfg.blocks@, pr == prices(*resolver, imports.inner@, func_price.of()), numbered(bs), edged(bs),
        0 <= __it1.i@ <= __it1.v@.len(), __it1.v@.len() == bs.len(), forall|i: int| 0 <= i < bs.len() ==> *(#[trigger] __it1.v@[i]) == bs[i],
        of(builder.nodes@, g.nodes()), noded(bs, pr, g.nodes(), g.cells(), bs.len() as int), linked(bs, g.nodes(), __it1.i@, Seq::empty(), 0),
    ensures __it1.i@ == bs.len()
    decreases __it1.v@.len() - __it1.i@
//@top 1
    let ghost k = __it1.i@;
//@before 2
    proof { let v = __it2.v@; assert(linked(bs, g.nodes(), k, v, 0)) by {
        assert forall|x: L, y: L| #[trigger] arc(g.nodes(), x, y) <==> (x.0 < k && joined_blocks(bs, x.0 as int, y.0 as int)) || exists|j: int| #[trigger] edge_at(v, 0, j, x, y) by {}
    } }
//@inv 2
    invariant
        bs == cfg.blocks@, edged(bs), 0 <= k < bs.len(), *block == bs[k], 0 <= __it2.i@ <= __it2.v@.len(),
        forall|i: int| 0 <= i < __it2.v@.len() ==> out_edge(bs[k], *(#[trigger] __it2.v@[i])), forall|e: Edge| bs[k].outgoing_edges@.contains(e) ==> exists|i: int| 0 <= i < __it2.v@.len() && *(#[trigger] __it2.v@[i]) == e,
        of(builder.nodes@, g.nodes()), noded(bs, pr, g.nodes(), g.cells(), bs.len() as int), linked(bs, g.nodes(), k, __it2.v@, __it2.i@),
    ensures __it2.i@ == __it2.v@.len()
    decreases __it2.v@.len() - __it2.i@
//@top 2
    let ghost (n2, c2, j) = (g.nodes(), g.cells(), __it2.i@);
    proof { if j < __it2.v@.len() { assert(out_edge(bs[k], *__it2.v@[j])); } }
//@bot 2
    proof {
        let n = g.nodes(); let c = g.cells();
        linked_edge(bs, n2, n, k, __it2.v@, j);
        assert forall|l: L| #[trigger] n.contains_key(l) <==> l.0 < bs.len() by { let e = *__it2.v@[j]; assert(n2.contains_key(e.src()) && n2.contains_key(e.tgt())); assert(n.dom().contains(l) <==> n2.dom().contains(l)); }
        assert forall|l: L| #[trigger] n.contains_key(l) implies weighs(bs, pr, c, l) by { assert(n2.contains_key(l)); assert(weighs(bs, pr, c2, l)); }
    }
//@after 2
    proof { linked_block(bs, g.nodes(), k, __it2.v@); }
//@endfn
pub open spec fn ssum(code: Seq<Instruction>, pr: Prices, at: Seq<int>) -> int decreases at.len() { if at.len() == 0 { 0 } else { ssum(code, pr, at.drop_last()) + pr(code[at.last()]) } }
proof fn spots_part(code: Seq<Instruction>, pr: Prices, blk: Seq<int>, k: int, x: int)
    requires 0 <= k <= code.len()
    ensures ssum(code, pr, spots(code, blk, k, x)) == part(code, pr, blk, k, x), forall|i: int| 0 <= i < spots(code, blk, k, x).len() ==> 0 <= #[trigger] spots(code, blk, k, x)[i] < k
    decreases k
{
    if k > 0 {
        spots_part(code, pr, blk, k - 1, x);
        let s = spots(code, blk, k - 1, x);
        assert(s.push(k - 1).drop_last() =~= s);
    }
}
proof fn held(ops: Seq<Op>, code: Seq<Instruction>, pr: Prices, at: Seq<int>, k: int)
    requires holds(ops, code, at), 0 <= k <= at.len()
    ensures psum(pr, ops, k) == ssum(code, pr, at.take(k))
    decreases k
{ if k > 0 { held(ops, code, pr, at, k - 1); assert(at.take(k).drop_last() =~= at.take(k - 1)); assert(*ops[k - 1].raw == code[at[k - 1]]); } }
/// What a block costs is what its instructions cost.
proof fn block_part(bs: Seq<Block>, code: Seq<Instruction>, pr: Prices, blk: Seq<int>, x: int)
    requires drawn(bs, code, blk), 0 <= x < bs.len()
    ensures block_cost(bs, pr, x) == part(code, pr, blk, code.len() as int, x)
{
    let n = code.len() as int; let at = spots(code, blk, n, x); let ops = bs[x].ops@;
    assert(holds(ops, code, at));
    spots_part(code, pr, blk, n, x);
    held(ops, code, pr, at, at.len() as int);
    assert(at.take(at.len() as int) =~= at);
}
proof fn blocks_known(bs: Seq<Block>, code: Seq<Instruction>, blk: Seq<int>, im: Map<F, (String, String)>, fp: Map<F, usize>, x: int)
    requires drawn(bs, code, blk), 0 <= x < bs.len(), all_known(im, fp, code)
    ensures ops_known(im, fp, bs[x].ops@)
{
    let n = code.len() as int; let at = spots(code, blk, n, x); let ops = bs[x].ops@;
    assert(holds(ops, code, at));
    spots_part(code, |i: Instruction| 0, blk, n, x);
    assert forall|k: int| 0 <= k < ops.len() implies known(im, fp, *(#[trigger] ops[k]).raw) by { assert(0 <= at[k] < n); assert(known(im, fp, code[at[k]])); }
}
pub open spec fn positive(pr: Prices) -> bool { forall|i: Instruction| #[trigger] pr(i) >= 0 }
proof fn part_positive(code: Seq<Instruction>, pr: Prices, blk: Seq<int>, k: int, x: int)
    requires positive(pr)
    ensures part(code, pr, blk, k, x) >= 0
    decreases k
{ if k > 0 { part_positive(code, pr, blk, k - 1, x); assert(pr(code[k - 1]) >= 0); } }
pub open spec fn nums(p: Seq<L>) -> Seq<int> { p.map_values(|l: L| l.0 as int) }
/// A way through the graph is one through the blocks and costs as much.
proof fn same_way(bs: Seq<Block>, code: Seq<Instruction>, pr: Prices, blk: Seq<int>, n: Map<L, Node>, c: Map<L, W>, p: Seq<L>)
    requires drawn(bs, code, blk), pictures(bs, pr, n, c), positive(pr), forall|i: int| 0 <= i < p.len() ==> n.contains_key(#[trigger] p[i])
    ensures sat(wsum(c, p)) == sat(tally(code, pr, blk, nums(p))), wsum(c, p) >= 0, tally(code, pr, blk, nums(p)) >= 0
    decreases p.len()
{
    if p.len() > 0 {
        let l = p.last(); let q = p.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies n.contains_key(#[trigger] q[i]) by { assert(q[i] == p[i]); }
        same_way(bs, code, pr, blk, n, c, q);
        assert(nums(p).drop_last() =~= nums(q));
        assert(n.contains_key(p[p.len() - 1]));
        block_part(bs, code, pr, blk, l.0 as int);
        part_positive(code, pr, blk, code.len() as int, l.0 as int);
        assert(weighs(bs, pr, c, l));
    }
}
proof fn leads_hops(bs: Seq<Block>, code: Seq<Instruction>, pr: Prices, blk: Seq<int>, n: Map<L, Node>, c: Map<L, W>, p: Seq<L>, b: L)
    requires drawn(bs, code, blk), pictures(bs, pr, n, c), wf(n), leads(n, p, L(0), b), n.contains_key(b)
    ensures hops(code, blk, nums(p), 0, b.0 as int), forall|i: int| 0 <= i < p.len() ==> n.contains_key(#[trigger] p[i])
{
    let q = nums(p);
    assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] hop_at(code, blk, q, i) by { assert(arc(n, p[i], p[i + 1])); assert(joined_blocks(bs, q[i], q[i + 1])); }
    assert forall|i: int| 0 <= i < p.len() implies n.contains_key(#[trigger] p[i]) by { if i < p.len() - 1 { assert(arc(n, p[i], p[i + 1])); } else { assert(p[i] == b); } }
}
proof fn hops_leads(bs: Seq<Block>, code: Seq<Instruction>, pr: Prices, blk: Seq<int>, n: Map<L, Node>, c: Map<L, W>, q: Seq<int>, b: L) -> (p: Seq<L>)
    requires drawn(bs, code, blk), pictures(bs, pr, n, c), wf(n), hops(code, blk, q, 0, b.0 as int), n.contains_key(b), bs.len() - 1 <= usize::MAX
    ensures leads(n, p, L(0), b), nums(p) == q
{
    let p = Seq::new(q.len(), |i: int| L(q[i] as usize));
    assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < bs.len() by {
        if i < q.len() - 1 { assert(hop_at(code, blk, q, i)); links_up(code, blk, q[i], q[i + 1]); }
    }
    assert(nums(p) =~= q);
    assert forall|i: int| 0 <= i < p.len() - 1 implies arc(n, #[trigger] p[i], p[i + 1]) by { assert(hop_at(code, blk, q, i)); assert(0 <= q[i] < bs.len() && 0 <= q[i + 1] < bs.len()); assert(joined_blocks(bs, q[i], q[i + 1])); }
    p
}
/// The dearest way through the graph is the dearest execution.
pub proof fn max_is_dearest(bs: Seq<Block>, code: Seq<Instruction>, pr: Prices, blk: Seq<int>, n: Map<L, Node>, c: Map<L, W>, b: L, t: int)
    requires drawn(bs, code, blk), pictures(bs, pr, n, c), positive(pr), wf(n), shaped(code), b.0 == bs.len() - 1, bs.len() - 1 <= usize::MAX, is_max(n, c, L(0), b, t)
    ensures dearest(code, pr, t)
{
    let e = code.len() as int;
    assert(n.contains_key(b));
    assert forall|q: Seq<int>| #[trigger] run(code, q, 0, e) implies sat(cost(code, pr, q)) <= t by {
        let w = whole_way(code, pr, blk, q);
        let p = hops_leads(bs, code, pr, blk, n, c, w, b);
        leads_hops(bs, code, pr, blk, n, c, p, b);
        same_way(bs, code, pr, blk, n, c, p);
    }
    let p = choose|p: Seq<L>| #[trigger] leads(n, p, L(0), b) && sat(wsum(c, p)) == t;
    leads_hops(bs, code, pr, blk, n, c, p, b);
    same_way(bs, code, pr, blk, n, c, p);
    let q = whole_run(code, pr, blk, nums(p));
    assert(run(code, q, 0, e) && sat(cost(code, pr, q)) == t);
}
proof fn ready(bs: Seq<Block>, code: Seq<Instruction>, pr: Prices, blk: Seq<int>, n: Map<L, Node>, c: Map<L, W>, b: L)
    requires drawn(bs, code, blk), pictures(bs, pr, n, c), wf(n), shaped(code), b.0 == bs.len() - 1, bs.len() - 1 <= usize::MAX
    ensures upward(n), reaches(n, L(0), b), weighed(n, c), n.contains_key(L(0)), n.contains_key(b), forall|l: L| #[trigger] n.contains_key(l) ==> c[l].dep_weight is None
{
    assert forall|x: L, y: L| #[trigger] arc(n, x, y) implies x.0 < y.0 by { assert(joined_blocks(bs, x.0 as int, y.0 as int)); links_up(code, blk, x.0 as int, y.0 as int); }
    assert(n.contains_key(b));
    assert(n.contains_key(L(0)));
    let q = some_run(code, 0);
    let w = whole_way(code, pr, blk, q);
    let p = hops_leads(bs, code, pr, blk, n, c, w, b);
    assert(leads(n, p, L(0), b));
    assert forall|l: L| #[trigger] n.contains_key(l) implies weighed_at(c, l) && c[l].dep_weight is None by { assert(weighs(bs, pr, c, l)); }
}
//@fn gpricing compute_func_price
//@local graph :: compute_max_weight_path \( (?:g ,)? ==> compute_max_weight_path(g, 
//@local let end = func_cfg\.end \( \) ; ==> let end = func_cfg.end(); proof { ready(bs, code, pr, blk, g.nodes(), g.cells(), end); } let ghost (n, c) = (g.nodes(), g.cells());
//@local let func_graph = ==> let ghost code = program.code(func_index); let ghost bs = func_cfg.blocks@; let ghost blk = choose|blk: Seq<int>| #[trigger] drawn(bs, code, blk); let ghost pr = prices(*resolver, program.imports.inner@, func_price.of()); proof { blk_mono(code, blk, code.len() as int, 0, code.len() as int); assert forall|x: int| 0 <= x < bs.len() implies ops_known(imports.inner@, func_price.of(), (#[trigger] bs[x]).ops@) by { blocks_known(bs, code, blk, imports.inner@, func_price.of(), x); } } let func_graph =
//@contract
    requires program.functions@.contains_key(func_index), shaped(program.code(func_index)), all_known(program.imports.inner@, func_price.of(), program.code(func_index))
    ensures dearest(program.code(func_index), prices(*resolver, program.imports.inner@, func_price.of()), r as int)
//@begin
    let mut gr = Gr::fresh(); let g = &mut gr;
//@end
    proof { max_is_dearest(bs, code, pr, blk, n, c, end, __result as int); }
//@endfn
}
fn main() {}
