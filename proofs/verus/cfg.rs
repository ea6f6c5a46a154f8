use vstd::prelude::*;
verus! {
//@include iter.inc
//@include progsubs.inc
//@include flowsubs.inc
//@sub HashMap < Depth , Vec < UnresolvedJump > > ==> JumpMap
//@sub HashMap < Depth , DepthUnresolvedCont > ==> ContMap
//@sub ([\w\.]+)\.drain \(\.\.\) ==> drain(&mut \1)
//@sub self\.current_depth \+= 1 ==> self.current_depth.add_assign(1)
//@sub self\.current_depth -= 1 ==> self.current_depth.sub_assign(1)
//@include labels.inc
//@include program.inc
//@include flow.inc
//@include blocks.inc
global size_of usize == 8;
#[verifier::external_body]
pub fn rt_panic<T>() -> (r: T) requires false { unimplemented!() }
pub fn rt_assert(b: bool) requires b {}
#[verifier::external_body]
pub fn vec_of<T>(a: [T; 1]) -> (r: Vec<T>) ensures r@ == seq![a@[0]] { unimplemented!() }
/// Vec::drain(..), read to its end.
#[verifier::external_body]
pub fn drain<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
//@item-eq gdepth struct:Depth
//@item gcont struct:DepthUnresolvedCont
//@item gjumpu struct:UnresolvedJump
//@item gblockb struct:BlockBuilder
//@item gblockr enum:BlockRef
//@item gcfgb struct:CFGBuilder
/// HashMap<Depth, Vec<UnresolvedJump>>
#[verifier::external_body]
pub struct JumpMap { _p: core::marker::PhantomData<L> }
impl View for JumpMap { type V = Map<Depth, Vec<UnresolvedJump>>; uninterp spec fn view(&self) -> Map<Depth, Vec<UnresolvedJump>>; }
impl JumpMap {
    #[verifier::external_body]
    pub fn new() -> (r: JumpMap) ensures r@ == Map::<Depth, Vec<UnresolvedJump>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Depth) -> (r: Option<Vec<UnresolvedJump>>) ensures final(self)@ == old(self)@.remove(*k), r is Some == old(self)@.contains_key(*k), r is Some ==> r->Some_0 == old(self)@[*k] { unimplemented!() }
    /// entry(k).or_insert_with(|| Vec::new())
    #[verifier::external_body]
    pub fn entry_or_new(&mut self, k: Depth) -> (r: &mut Vec<UnresolvedJump>)
        ensures final(self)@ == old(self)@.insert(k, *final(r)), old(self)@.contains_key(k) ==> *r == old(self)@[k], !old(self)@.contains_key(k) ==> r@ == Seq::<UnresolvedJump>::empty()
    { unimplemented!() }
}
/// HashMap<Depth, DepthUnresolvedCont>
#[verifier::external_body]
pub struct ContMap { _p: core::marker::PhantomData<L> }
impl View for ContMap { type V = Map<Depth, DepthUnresolvedCont>; uninterp spec fn view(&self) -> Map<Depth, DepthUnresolvedCont>; }
impl ContMap {
    #[verifier::external_body]
    pub fn new() -> (r: ContMap) ensures r@ == Map::<Depth, DepthUnresolvedCont>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Depth) -> (r: Option<DepthUnresolvedCont>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Depth) -> (r: Option<&DepthUnresolvedCont>) ensures r is Some == self@.contains_key(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &Depth) -> (r: Option<&mut DepthUnresolvedCont>)
        ensures r is Some == old(self)@.contains_key(*k), r is None ==> *final(self) == *old(self),
            r matches Some(x) ==> *x == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(x))
    { unimplemented!() }
    /// entry(k).or_insert(v)
    #[verifier::external_body]
    pub fn or_insert(&mut self, k: Depth, v: DepthUnresolvedCont)
        ensures final(self)@ == if old(self)@.contains_key(k) { old(self)@ } else { old(self)@.insert(k, v) }
    { unimplemented!() }
}
impl Depth {
//@fn gdepth Sub<u32>@Depth::sub
//@local Self :: Output ==> Depth
//@contract
    requires self.0 >= rhs
    ensures r.0 == self.0 - rhs
//@endfn
//@fn gdepth AddAssign<usize>@Depth::add_assign
//@contract
    requires old(self).0 + rhs <= u32::MAX
    ensures final(self).0 == old(self).0 + rhs
//@endfn
//@fn gdepth SubAssign<usize>@Depth::sub_assign
//@contract
    requires old(self).0 >= rhs
    ensures final(self).0 == old(self).0 - rhs
//@endfn
}
impl L {
//@fn gblockn BlockNum::inc
//@contract
    requires old(self).0 < usize::MAX
    ensures final(self).0 == old(self).0 + 1
//@endfn
}
impl DepthUnresolvedCont {
//@fn gcont Default@DepthUnresolvedCont::default
//@contract
    ensures r.on_if_false is None, r.after_if is None, r.after_then is None
//@endfn
//@fn gcont DepthUnresolvedCont::has_after_if
//@contract
    ensures r == self.after_if is Some
//@endfn
//@fn gcont DepthUnresolvedCont::has_after_then
//@contract
    ensures r == self.after_then is Some
//@endfn
//@fn gcont DepthUnresolvedCont::set_after_if
//@contract
    ensures *final(self) == (DepthUnresolvedCont { after_if: Some(after_if), ..*old(self) })
//@endfn
//@fn gcont DepthUnresolvedCont::set_after_then
//@contract
    ensures *final(self) == (DepthUnresolvedCont { after_then: Some(after_then), ..*old(self) })
//@endfn
//@fn gcont DepthUnresolvedCont::set_on_if_false
//@contract
    ensures *final(self) == (DepthUnresolvedCont { on_if_false: Some(on_if_false), ..*old(self) })
//@endfn
//@fn gcont DepthUnresolvedCont::take_after_if
//@contract
    ensures *final(self) == (DepthUnresolvedCont { after_if: None, ..*old(self) }), r == old(self).after_if
//@endfn
//@fn gcont DepthUnresolvedCont::take_after_then
//@contract
    ensures *final(self) == (DepthUnresolvedCont { after_then: None, ..*old(self) }), r == old(self).after_then
//@endfn
//@fn gcont DepthUnresolvedCont::take_on_if_false
//@contract
    ensures *final(self) == (DepthUnresolvedCont { on_if_false: None, ..*old(self) }), r == old(self).on_if_false
//@endfn
}
impl UnresolvedJump {
//@fn gjumpu UnresolvedJump::new
//@contract
    ensures r.origin == origin
//@endfn
//@fn gjumpu UnresolvedJump::resolve
//@contract
    ensures r.origin == self.origin, r.target == target
//@endfn
}
impl Edge {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Edge) ensures r == *self { unimplemented!() }
}
impl<'f> BlockBuilder<'f> {
//@fn gblockb BlockBuilder::new
//@contract
    ensures r.block_num == block_num, r.ops@ == Seq::<Op>::empty(), r.incoming_edges@ == Seq::<Edge>::empty(), r.outgoing_edges@ == Seq::<Edge>::empty()
//@endfn
//@fn gblockb BlockBuilder::append
//@contract
    ensures *final(self) == (BlockBuilder { ops: final(self).ops, ..*old(self) }), final(self).ops@ == old(self).ops@.push(op)
//@endfn
//@fn gblockb BlockBuilder::add_incoming_edge
//@contract
    ensures *final(self) == (BlockBuilder { incoming_edges: final(self).incoming_edges, ..*old(self) }), final(self).incoming_edges@ == old(self).incoming_edges@.push(edge)
//@endfn
//@fn gblockb BlockBuilder::add_outgoing_edge
//@contract
    ensures *final(self) == (BlockBuilder { outgoing_edges: final(self).outgoing_edges, ..*old(self) }), final(self).outgoing_edges@ == old(self).outgoing_edges@.push(edge)
//@endfn
//@fn gblockb BlockBuilder::build
//@local IndexSet :: ==> EdgeSet ::
//@contract
    ensures r.num == self.block_num, r.ops@ == self.ops@, forall|e: Edge| #[trigger] out_edge(r, e) <==> self.outgoing_edges@.contains(e)
//@inv 0
    invariant this.block_num == self.block_num, this.ops == self.ops, this.outgoing_edges == self.outgoing_edges, 0 <= __it0.i@ <= __it0.v@.len()
    decreases __it0.v@.len() - __it0.i@
//@inv 1
    invariant
        this.block_num == self.block_num, this.ops == self.ops, __it1.v@ == self.outgoing_edges@, 0 <= __it1.i@ <= __it1.v@.len(),
        forall|e: Edge| #[trigger] outgoing_edges@.contains(e) <==> exists|i: int| 0 <= i < __it1.i@ && #[trigger] __it1.v@[i] == e,
    ensures __it1.i@ == __it1.v@.len()
    decreases __it1.v@.len() - __it1.i@
//@top 1
    let ghost es = outgoing_edges@; let ghost k = __it1.i@; let ghost v = __it1.v@;
//@bot 1
    proof {
        assert forall|e: Edge| #[trigger] outgoing_edges@.contains(e) <==> exists|i: int| 0 <= i < k + 1 && #[trigger] v[i] == e by {
            if outgoing_edges@.contains(e) { if es.contains(e) { let i = choose|i: int| 0 <= i < k && #[trigger] v[i] == e; assert(v[i] == e); } else { assert(v[k] == e); } }
            if exists|i: int| 0 <= i < k + 1 && #[trigger] v[i] == e { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] v[i] == e; if i < k { assert(v[i] == e); assert(es.contains(e)); } }
        }
    }
//@endfn
}
impl<'f> BlockRef<'f> {
    pub open spec fn b(&self) -> BlockBuilder<'f> { self->NotReady_0 }
//@fn gblockr BlockRef::as_builder_mut
//@local match \* self ==> match self
//@local ref mut builder ==> builder
//@local rt_panic \([^)]*\) ==> rt_panic()
//@contract
    requires *old(self) is NotReady
    ensures *r == old(self).b(), *final(self) == BlockRef::NotReady(*final(r))
//@endfn
//@fn gblockr BlockRef::add_incoming_edge
//@contract
    requires *old(self) is NotReady
    ensures *final(self) is NotReady, final(self).b() == (BlockBuilder { incoming_edges: final(self).b().incoming_edges, ..old(self).b() })
//@endfn
//@fn gblockr BlockRef::add_outgoing_edge
//@contract
    requires *old(self) is NotReady
    ensures *final(self) is NotReady, final(self).b() == (BlockBuilder { outgoing_edges: final(self).b().outgoing_edges, ..old(self).b() }), final(self).b().outgoing_edges@ == old(self).b().outgoing_edges@.push(edge)
//@endfn
//@fn gblockr BlockRef::append
//@contract
    requires *old(self) is NotReady
    ensures *final(self) is NotReady, final(self).b() == (BlockBuilder { ops: final(self).b().ops, ..old(self).b() }), final(self).b().ops@ == old(self).b().ops@.push(op)
//@endfn
}
// ---- the graph while it is built
pub open spec fn outs(bs: Seq<BlockRef>, x: int) -> Seq<Edge> { bs[x].b().outgoing_edges@ }
pub open spec fn ops(bs: Seq<BlockRef>, x: int) -> Seq<Op> { bs[x].b().ops@ }
pub open spec fn edge_at(bs: Seq<BlockRef>, x: int, i: int) -> Edge { outs(bs, x)[i] }
/// The graph has an edge from x to y.
pub open spec fn arrow(bs: Seq<BlockRef>, x: int, y: int) -> bool { 0 <= x < bs.len() && exists|i: int| 0 <= i < outs(bs, x).len() && (#[trigger] edge_at(bs, x, i)).tgt().0 == y }
pub open spec fn sound(bs: Seq<BlockRef>) -> bool {
    &&& forall|x: int| 0 <= x < bs.len() ==> #[trigger] bs[x] is NotReady && bs[x].b().block_num.0 == x
    &&& forall|x: int, i: int| 0 <= x < bs.len() && 0 <= i < outs(bs, x).len() ==> (#[trigger] edge_at(bs, x, i)).src().0 == x && 0 <= edge_at(bs, x, i).tgt().0 < bs.len()
}
pub open spec fn same_ops(bs: Seq<BlockRef>, os: Seq<BlockRef>) -> bool { forall|x: int| 0 <= x < os.len() ==> #[trigger] ops(bs, x) == ops(os, x) }
/// With the edge a -> t.
pub open spec fn linked(bs: Seq<BlockRef>, os: Seq<BlockRef>, a: int, t: int) -> bool {
    &&& sound(bs) && bs.len() == os.len() && same_ops(bs, os)
    &&& forall|x: int, y: int| #[trigger] arrow(bs, x, y) <==> arrow(os, x, y) || (x == a && y == t)
}
/// With a new block.
pub open spec fn grown(bs: Seq<BlockRef>, os: Seq<BlockRef>) -> bool {
    &&& sound(bs) && bs.len() == os.len() + 1 && same_ops(bs, os) && ops(bs, os.len() as int) == Seq::<Op>::empty()
    &&& forall|x: int, y: int| #[trigger] arrow(bs, x, y) <==> arrow(os, x, y)
}
pub open spec fn waiting_at(m: Map<Depth, Vec<UnresolvedJump>>, d: int, i: int) -> int { m[Depth(d as u32)]@[i].origin.0 as int }
/// A jump from block x to the end of scope d is waiting for that end.
pub open spec fn waiting(m: Map<Depth, Vec<UnresolvedJump>>, d: int, x: int) -> bool {
    0 <= d <= u32::MAX && m.contains_key(Depth(d as u32)) && exists|i: int| 0 <= i < m[Depth(d as u32)]@.len() && #[trigger] waiting_at(m, d, i) == x
}
impl<'f> CFGBuilder<'f> {
    pub open spec fn cur(&self) -> int { self.block_num.0 as int }
    pub open spec fn ok(&self) -> bool { sound(self.blocks@) && self.blocks@.len() == self.cur() + 1 && self.blocks@.len() < usize::MAX }
//@fn gcfgb CFGBuilder::current_block
//@contract
    ensures r == self.block_num
//@endfn
//@fn gcfgb CFGBuilder::current_depth
//@contract
    ensures r == self.current_depth
//@endfn
//@fn gcfgb CFGBuilder::parent_depth
//@local depth - 1u32 ==> depth.sub(1u32)
//@contract
    requires self.current_depth.0 >= 1
    ensures r.0 == self.current_depth.0 - 1
//@endfn
//@fn gcfgb CFGBuilder::block_mut
//@contract
    requires block_num.0 < old(self).blocks@.len()
    ensures *r == old(self).blocks@[block_num.0 as int], final(self).blocks@ == old(self).blocks@.update(block_num.0 as int, *final(r)),
        *final(self) == (CFGBuilder { blocks: final(self).blocks, ..*old(self) })
//@endfn
//@fn gcfgb CFGBuilder::current_block_mut
//@contract
    requires old(self).ok()
    ensures *r == old(self).blocks@[old(self).cur()], final(self).blocks@ == old(self).blocks@.update(old(self).cur(), *final(r)),
        *final(self) == (CFGBuilder { blocks: final(self).blocks, ..*old(self) })
//@endfn
//@fn gcfgb CFGBuilder::append
//@contract
    requires old(self).ok()
    ensures final(self).ok(), *final(self) == (CFGBuilder { blocks: final(self).blocks, ..*old(self) }),
        final(self).blocks@.len() == old(self).blocks@.len(), ops(final(self).blocks@, old(self).cur()) == ops(old(self).blocks@, old(self).cur()).push(op),
        forall|x: int| 0 <= x < old(self).cur() ==> #[trigger] ops(final(self).blocks@, x) == ops(old(self).blocks@, x),
        forall|x: int, y: int| #[trigger] arrow(final(self).blocks@, x, y) <==> arrow(old(self).blocks@, x, y),
//@end
    proof { outs_lemma(self.blocks@, old(self).blocks@); }
//@endfn
//@fn gcfgb CFGBuilder::create_block
//@contract
    requires old(self).ok(), old(self).blocks@.len() < usize::MAX - 1
    ensures final(self).ok(), grown(final(self).blocks@, old(self).blocks@), r == final(self).block_num, r.0 == old(self).blocks@.len(),
        *final(self) == (CFGBuilder { blocks: final(self).blocks, block_num: final(self).block_num, ..*old(self) })
//@end
    proof { outs_lemma(self.blocks@, old(self).blocks@); }
//@endfn
//@fn gcfgb CFGBuilder::add_edge
//@contract
    requires old(self).ok(), edge.src().0 < old(self).blocks@.len(), edge.tgt().0 < old(self).blocks@.len()
    ensures final(self).ok(), linked(final(self).blocks@, old(self).blocks@, edge.src().0 as int, edge.tgt().0 as int), *final(self) == (CFGBuilder { blocks: final(self).blocks, ..*old(self) })
//@end
    proof { link_lemma(self.blocks@, old(self).blocks@, edge); }
//@endfn
//@fn gcfgb CFGBuilder::add_cont
//@contract
    requires old(self).ok(), origin.0 < old(self).blocks@.len(), target.0 < old(self).blocks@.len()
    ensures final(self).ok(), linked(final(self).blocks@, old(self).blocks@, origin.0 as int, target.0 as int), *final(self) == (CFGBuilder { blocks: final(self).blocks, ..*old(self) })
//@endfn
//@fn gcfgb CFGBuilder::add_jump
//@local self\.unresolved_jumps_entry \(depth\)\.or_insert_with \(\| \| Vec :: new \(\)\) ==> self.unresolved_jumps.entry_or_new(depth)
//@contract
    ensures *final(self) == (CFGBuilder { unresolved_jumps: final(self).unresolved_jumps, ..*old(self) }),
        final(self).unresolved_jumps@.dom() == old(self).unresolved_jumps@.dom().insert(depth),
        forall|d: int, x: int| #[trigger] waiting(final(self).unresolved_jumps@, d, x) <==> waiting(old(self).unresolved_jumps@, d, x) || (d == depth.0 && x == origin.0),
//@end
    proof {
        let m = self.unresolved_jumps@; let o = old(self).unresolved_jumps@;
        assert(m.dom() =~= o.dom().insert(depth));
        assert(Depth(depth.0 as int as u32) == depth);
        let before = if o.contains_key(depth) { o[depth]@ } else { Seq::empty() };
        assert(m[depth]@ == before.push(UnresolvedJump { origin }));
        assert forall|d: int, x: int| #[trigger] waiting(m, d, x) <==> waiting(o, d, x) || (d == depth.0 && x == origin.0) by {
            if waiting(m, d, x) {
                let i = choose|i: int| 0 <= i < m[Depth(d as u32)]@.len() && #[trigger] waiting_at(m, d, i) == x;
                if d == depth.0 { if i < before.len() { assert(waiting_at(o, d, i) == x); } } else { assert(waiting_at(o, d, i) == x); }
            }
            if waiting(o, d, x) { let i = choose|i: int| 0 <= i < o[Depth(d as u32)]@.len() && #[trigger] waiting_at(o, d, i) == x; assert(waiting_at(m, d, i) == x); }
            if d == depth.0 && x == origin.0 { assert(waiting_at(m, d, before.len() as int) == x); }
        }
    }
//@endfn
//@fn gcfgb CFGBuilder::resolve_jumps
//@contract
    requires old(self).ok(), old(self).blocks@.len() < usize::MAX - 1, forall|x: int| #[trigger] waiting(old(self).unresolved_jumps@, depth.0 as int, x) ==> 0 <= x < old(self).blocks@.len()
    ensures final(self).ok(), final(self).current_depth == old(self).current_depth, final(self).unresolved_cont == old(self).unresolved_cont,
        final(self).unresolved_jumps@ == old(self).unresolved_jumps@.remove(depth),
        met(final(self).blocks@, old(self).blocks@, old(self).unresolved_jumps@, depth.0 as int, create_new_block),
//@before 0
    let ghost js = __it0.v@; let ghost b1 = self.blocks@; let ghost m = old(self).unresolved_jumps@; let ghost dd = depth.0 as int; let ghost t = target.0 as int;
    proof { assert(Depth(dd as u32) == depth); assert(m[depth]@ == js); assert forall|i: int| 0 <= i < js.len() implies 0 <= (#[trigger] js[i]).origin.0 < b1.len() by { assert(waiting_at(m, dd, i) == js[i].origin.0); assert(waiting(m, dd, js[i].origin.0 as int)); } }
//@inv 0
    invariant
        self.ok(), __it0.v@ == js, 0 <= __it0.i@ <= js.len(), self.blocks@.len() == b1.len(), target.0 == t, t < b1.len(), forall|i: int| 0 <= i < js.len() ==> 0 <= (#[trigger] js[i]).origin.0 < b1.len(),
        same_ops(self.blocks@, b1), self.current_depth == old(self).current_depth, self.unresolved_cont == old(self).unresolved_cont, self.unresolved_jumps@ == m.remove(depth),
        forall|x: int, y: int| #[trigger] arrow(self.blocks@, x, y) <==> arrow(b1, x, y) || (y == t && from(js, __it0.i@, x)),
    ensures __it0.i@ == js.len()
    decreases js.len() - __it0.i@
//@top 0
    let ghost k = __it0.i@; let ghost bk = self.blocks@;
//@bot 0
    proof {
        assert forall|x: int, y: int| #[trigger] arrow(self.blocks@, x, y) <==> arrow(b1, x, y) || (y == t && from(js, k + 1, x)) by {
            assert(arrow(self.blocks@, x, y) <==> arrow(bk, x, y) || (x == js[k].origin.0 && y == t));
            from_step(js, k, x);
        }
    }
//@after 0
    proof {
        let b = self.blocks@; let o = old(self).blocks@;
        assert forall|x: int| #[trigger] waiting(m, dd, x) <==> from(js, js.len() as int, x) by {
            if waiting(m, dd, x) { let i = choose|i: int| 0 <= i < m[Depth(dd as u32)]@.len() && #[trigger] waiting_at(m, dd, i) == x; assert(js[i].origin.0 == x); }
            if from(js, js.len() as int, x) { let i = choose|i: int| 0 <= i < js.len() && (#[trigger] js[i]).origin.0 == x; assert(waiting_at(m, dd, i) == x); }
        }
        assert(waiting(m, dd, js[0].origin.0 as int)) by { assert(js[0].origin.0 == js[0].origin.0); assert(from(js, js.len() as int, js[0].origin.0 as int)); }
        assert(some_waiting(m, dd));
        assert forall|x: int| 0 <= x < o.len() implies #[trigger] ops(b, x) == ops(o, x) by { assert(ops(b, x) == ops(b1, x)); }
        if create_new_block { assert(ops(b, o.len() as int) == ops(b1, o.len() as int)); }
        assert forall|x: int, y: int| #[trigger] arrow(b, x, y) <==> arrow(o, x, y) || (y == b.len() - 1 && ((create_new_block && x == o.len() - 1) || waiting(m, dd, x))) by { assert(arrow(b1, x, y) <==> arrow(o, x, y) || (create_new_block && x == o.len() - 1 && y == b.len() - 1)); }
    }
//@endfn
//@fn gcfgb CFGBuilder::do_exit_scope
//@contract
    requires old(self).ok(), old(self).blocks@.len() < usize::MAX - 1, old(self).current_depth.0 >= 1, forall|x: int| #[trigger] waiting(old(self).unresolved_jumps@, old(self).current_depth.0 - 1, x) ==> 0 <= x < old(self).blocks@.len()
    ensures final(self).ok(), final(self).current_depth.0 == old(self).current_depth.0 - 1, final(self).unresolved_cont == old(self).unresolved_cont,
        final(self).unresolved_jumps@ == old(self).unresolved_jumps@.remove(final(self).current_depth),
        met(final(self).blocks@, old(self).blocks@, old(self).unresolved_jumps@, old(self).current_depth.0 - 1, create_new_block),
//@endfn
//@fn gcfgb CFGBuilder::get_depth_unresolved
//@contract
    ensures r is Some == self.unresolved_cont@.contains_key(depth), r is Some ==> *r->Some_0 == self.unresolved_cont@[depth]
//@endfn
//@fn gcfgb CFGBuilder::get_depth_unresolved_mut
//@contract
    ensures r is Some == old(self).unresolved_cont@.contains_key(depth), r is None ==> *final(self) == *old(self),
        r matches Some(x) ==> *x == old(self).unresolved_cont@[depth] && final(self).unresolved_cont@ == old(self).unresolved_cont@.insert(depth, *final(x)) && *final(self) == (CFGBuilder { unresolved_cont: final(self).unresolved_cont, ..*old(self) }),
//@endfn
//@fn gcfgb CFGBuilder::remove_depth_unresolved
//@contract
    ensures *final(self) == (CFGBuilder { unresolved_cont: final(self).unresolved_cont, ..*old(self) }), final(self).unresolved_cont@ == old(self).unresolved_cont@.remove(depth)
//@endfn
//@fn gcfgb CFGBuilder::enter_scope
//@contract
    requires old(self).ok(), old(self).current_depth.0 < u32::MAX
    ensures final(self).ok(), final(self).current_depth.0 == old(self).current_depth.0 + 1, final(self).unresolved_jumps == old(self).unresolved_jumps, final(self).unresolved_cont == old(self).unresolved_cont, final(self).block_num == old(self).block_num,
        op is None ==> final(self).blocks == old(self).blocks,
        op matches Some(p) ==> appended(final(self).blocks@, old(self).blocks@, p),
//@endfn
//@fn gcfgb CFGBuilder::enter_if
//@local let entry = self\.depth_unresolved_entry \(depth\); ==>
//@local entry\.or_insert \( ==> self.unresolved_cont.or_insert(depth, 
//@contract
    requires old(self).ok(), old(self).current_depth.0 < u32::MAX, old(self).blocks@.len() < usize::MAX - 1, !old(self).unresolved_cont@.contains_key(old(self).current_depth)
    ensures final(self).ok(), final(self).current_depth.0 == old(self).current_depth.0 + 1, final(self).unresolved_jumps == old(self).unresolved_jumps,
        final(self).unresolved_cont@ == old(self).unresolved_cont@.insert(old(self).current_depth, DepthUnresolvedCont { on_if_false: Some(old(self).block_num), after_if: Some(old(self).block_num), after_then: None }),
        turned(final(self).blocks@, old(self).blocks@, old(self).cur()),
//@endfn
//@fn gcfgb CFGBuilder::enter_else
//@contract
    requires old(self).ok(), old(self).current_depth.0 >= 1, old(self).blocks@.len() < usize::MAX - 1, old(self).unresolved_cont@.contains_key(old(self).up()), old(self).cont().on_if_false matches Some(a) && a.0 < old(self).blocks@.len()
    ensures final(self).ok(), final(self).current_depth == old(self).current_depth, final(self).unresolved_jumps == old(self).unresolved_jumps,
        final(self).unresolved_cont@ == old(self).unresolved_cont@.insert(old(self).up(), DepthUnresolvedCont { on_if_false: None, after_if: None, after_then: Some(old(self).block_num) }),
        turned(final(self).blocks@, old(self).blocks@, old(self).cont().on_if_false->Some_0.0 as int),
//@endfn
//@fn gcfgb CFGBuilder::new
//@local HashMap :: new \(\) , unresolved_cont : HashMap :: new \(\) ==> JumpMap::new(), unresolved_cont: ContMap::new()
//@contract
    ensures r.ok(), r.cur() == 1, r.current_depth.0 == 1, r.unresolved_jumps@ == Map::<Depth, Vec<UnresolvedJump>>::empty(), r.unresolved_cont@ == Map::<Depth, DepthUnresolvedCont>::empty(),
        ops(r.blocks@, 0) == Seq::<Op>::empty(), ops(r.blocks@, 1) == Seq::<Op>::empty(), forall|x: int, y: int| #[trigger] arrow(r.blocks@, x, y) <==> x == 0 && y == 1,
//@endfn
    pub open spec fn up(&self) -> Depth { Depth((self.current_depth.0 - 1) as u32) }
    pub open spec fn cont(&self) -> DepthUnresolvedCont { self.unresolved_cont@[self.up()] }
//@fn gcfgb CFGBuilder::is_within_else
//@contract
    requires self.current_depth.0 >= 1
    ensures r == (self.unresolved_cont@.contains_key(self.up()) && self.cont().after_then is Some)
//@endfn
//@fn gcfgb CFGBuilder::is_within_then
//@contract
    requires self.current_depth.0 >= 1
    ensures r == (self.unresolved_cont@.contains_key(self.up()) && self.cont().after_if is Some)
//@endfn
    /// A scope is left: a new block follows it if something leads there besides its last block.
    pub open spec fn left(&self, o: &CFGBuilder<'f>, from: Option<L>) -> bool {
        &&& self.ok() && self.current_depth == o.up() && self.unresolved_jumps@ == o.unresolved_jumps@.remove(o.up())
        &&& self.unresolved_cont@ == if from is Some { o.unresolved_cont@.remove(o.up()) } else { o.unresolved_cont@ }
        &&& if from is Some || some_waiting(o.unresolved_jumps@, o.up().0 as int) {
            &&& self.blocks@.len() == o.blocks@.len() + 1 && same_ops(self.blocks@, o.blocks@) && ops(self.blocks@, o.blocks@.len() as int) == Seq::<Op>::empty()
            &&& forall|x: int, y: int| #[trigger] arrow(self.blocks@, x, y) <==> arrow(o.blocks@, x, y) || (y == o.blocks@.len() && (x == o.cur() || Some(x) == at(from) || waiting(o.unresolved_jumps@, o.up().0 as int, x)))
        } else { self.blocks@ == o.blocks@ }
    }
    /// A scope can be left.
    pub open spec fn leaving(&self) -> bool {
        &&& self.ok() && self.blocks@.len() < usize::MAX - 2 && self.current_depth.0 >= 1
        &&& forall|x: int| #[trigger] waiting(self.unresolved_jumps@, self.up().0 as int, x) ==> 0 <= x < self.blocks@.len()
    }
//@fn gcfgb CFGBuilder::exit_else
//@contract
    requires old(self).leaving(), old(self).unresolved_cont@.contains_key(old(self).up()), old(self).cont().after_then matches Some(a) && a.0 < old(self).blocks@.len()
    ensures final(self).left(old(self), old(self).cont().after_then)
//@end
    proof { let b = self.blocks@; let o = old(self).blocks@; let m = old(self).unresolved_jumps@; assert(self.unresolved_cont@ =~= old(self).unresolved_cont@.remove(old(self).up())); }
//@endfn
//@fn gcfgb CFGBuilder::exit_then
//@contract
    requires old(self).leaving(), old(self).unresolved_cont@.contains_key(old(self).up()), old(self).cont().after_if matches Some(a) && a.0 < old(self).blocks@.len()
    ensures final(self).left(old(self), old(self).cont().after_if)
//@end
    proof { let b = self.blocks@; let o = old(self).blocks@; let m = old(self).unresolved_jumps@; assert(self.unresolved_cont@ =~= old(self).unresolved_cont@.remove(old(self).up())); }
//@endfn
//@fn gcfgb CFGBuilder::exit_scope
//@contract
    requires old(self).leaving(), old(self).unresolved_cont@.contains_key(old(self).up()) ==> old(self).cont().after_then is Some || old(self).cont().after_if is Some,
        old(self).unresolved_cont@.contains_key(old(self).up()) ==> (old(self).cont().after_then matches Some(a) ==> a.0 < old(self).blocks@.len()) && (old(self).cont().after_if matches Some(a) ==> a.0 < old(self).blocks@.len()),
    ensures final(self).left(old(self), old(self).pending_end())
//@begin
    proof { assert(self.up().0 as int == self.current_depth.0 - 1); }
//@endfn
    pub open spec fn pending_end(&self) -> Option<L> { if !self.unresolved_cont@.contains_key(self.up()) { None } else if self.cont().after_then is Some { self.cont().after_then } else { self.cont().after_if } }
}
pub open spec fn appended(bs: Seq<BlockRef>, os: Seq<BlockRef>, op: Op) -> bool {
    &&& bs.len() == os.len() && ops(bs, os.len() - 1) == ops(os, os.len() - 1).push(op) && forall|x: int| 0 <= x < os.len() - 1 ==> #[trigger] ops(bs, x) == ops(os, x)
    &&& forall|x: int, y: int| #[trigger] arrow(bs, x, y) <==> arrow(os, x, y)
}
/// With a new block and an edge from a to it.
pub open spec fn turned(bs: Seq<BlockRef>, os: Seq<BlockRef>, a: int) -> bool {
    &&& bs.len() == os.len() + 1 && same_ops(bs, os) && ops(bs, os.len() as int) == Seq::<Op>::empty()
    &&& forall|x: int, y: int| #[trigger] arrow(bs, x, y) <==> arrow(os, x, y) || (x == a && y == os.len())
}
pub open spec fn at(l: Option<L>) -> Option<int> { match l { Some(x) => Some(x.0 as int), None => None } }
pub open spec fn from(js: Seq<UnresolvedJump>, k: int, x: int) -> bool { exists|i: int| 0 <= i < k && (#[trigger] js[i]).origin.0 == x }
pub proof fn from_step(js: Seq<UnresolvedJump>, k: int, x: int)
    requires 0 <= k < js.len()
    ensures from(js, k + 1, x) <==> from(js, k, x) || js[k].origin.0 == x
{
    if from(js, k + 1, x) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] js[i]).origin.0 == x; if i < k { assert(js[i].origin.0 == x); } }
    if from(js, k, x) { let i = choose|i: int| 0 <= i < k && (#[trigger] js[i]).origin.0 == x; assert(js[i].origin.0 == x); }
}
pub open spec fn some_waiting(m: Map<Depth, Vec<UnresolvedJump>>, d: int) -> bool { exists|x: int| #[trigger] waiting(m, d, x) }
/// The jumps waiting for the end of scope d are joined to the newest block.
pub open spec fn met(bs: Seq<BlockRef>, os: Seq<BlockRef>, m: Map<Depth, Vec<UnresolvedJump>>, d: int, create: bool) -> bool {
    if !some_waiting(m, d) { bs == os } else {
        &&& sound(bs) && bs.len() == os.len() + (if create { 1int } else { 0 }) && same_ops(bs, os) && (create ==> ops(bs, os.len() as int) == Seq::<Op>::empty())
        &&& forall|x: int, y: int| #[trigger] arrow(bs, x, y) <==> arrow(os, x, y) || (y == bs.len() - 1 && ((create && x == os.len() - 1) || waiting(m, d, x)))
    }
}
pub proof fn outs_lemma(b: Seq<BlockRef>, o: Seq<BlockRef>)
    requires sound(o), o.len() <= b.len(), forall|x: int| 0 <= x < b.len() ==> #[trigger] b[x] is NotReady && b[x].b().block_num.0 == x,
        forall|x: int| 0 <= x < b.len() ==> #[trigger] outs(b, x) == if x < o.len() { outs(o, x) } else { Seq::empty() },
    ensures sound(b), forall|x: int, y: int| #[trigger] arrow(b, x, y) <==> arrow(o, x, y)
{
    assert forall|x: int, i: int| 0 <= x < b.len() && 0 <= i < outs(b, x).len() implies (#[trigger] edge_at(b, x, i)).src().0 == x && 0 <= edge_at(b, x, i).tgt().0 < b.len() by { assert(edge_at(b, x, i) == edge_at(o, x, i)); }
    assert forall|x: int, y: int| #[trigger] arrow(b, x, y) <==> arrow(o, x, y) by {
        if arrow(b, x, y) { let i = choose|i: int| 0 <= i < outs(b, x).len() && (#[trigger] edge_at(b, x, i)).tgt().0 == y; assert(edge_at(o, x, i) == edge_at(b, x, i)); }
        if arrow(o, x, y) { let i = choose|i: int| 0 <= i < outs(o, x).len() && (#[trigger] edge_at(o, x, i)).tgt().0 == y; assert(outs(b, x) == outs(o, x)); assert(edge_at(b, x, i) == edge_at(o, x, i)); }
    }
}
pub proof fn link_lemma(b: Seq<BlockRef>, o: Seq<BlockRef>, e: Edge)
    requires sound(o), b.len() == o.len(), e.src().0 < o.len(), e.tgt().0 < o.len(), same_ops(b, o),
        forall|x: int| 0 <= x < b.len() ==> #[trigger] b[x] is NotReady && b[x].b().block_num.0 == x,
        forall|x: int| 0 <= x < b.len() ==> #[trigger] outs(b, x) == if x == e.src().0 { outs(o, x).push(e) } else { outs(o, x) },
    ensures linked(b, o, e.src().0 as int, e.tgt().0 as int)
{
    assert forall|x: int, i: int| 0 <= x < b.len() && 0 <= i < outs(b, x).len() implies (#[trigger] edge_at(b, x, i)).src().0 == x && 0 <= edge_at(b, x, i).tgt().0 < b.len() by {
        if i < outs(o, x).len() { assert(edge_at(b, x, i) == edge_at(o, x, i)); }
    }
    assert forall|x: int, y: int| #[trigger] arrow(b, x, y) <==> arrow(o, x, y) || (x == e.src().0 && y == e.tgt().0) by {
        if arrow(b, x, y) {
            let i = choose|i: int| 0 <= i < outs(b, x).len() && (#[trigger] edge_at(b, x, i)).tgt().0 == y;
            if i < outs(o, x).len() { assert(edge_at(o, x, i) == edge_at(b, x, i)); }
        }
        if arrow(o, x, y) { let i = choose|i: int| 0 <= i < outs(o, x).len() && (#[trigger] edge_at(o, x, i)).tgt().0 == y; assert(edge_at(b, x, i) == edge_at(o, x, i)); }
        if x == e.src().0 && y == e.tgt().0 { let i = outs(o, x).len() as int; assert(edge_at(b, x, i) == e); }
    }
}
// ---- scopes
pub open spec fn homed(code: Seq<Instruction>, k: int, d: int) -> bool {
    let s = scopes(code, k)[d];
    &&& -1 <= s.open < k && (d == 0 <==> s.open == -1)
    &&& s.open == -1 ==> !s.is_if
    &&& s.open >= 0 ==> scopes(code, s.open).len() == d && (code[s.open] is Block || code[s.open] is If) && (s.is_if <==> code[s.open] is If)
    &&& s.alt matches Some(e) ==> s.is_if && s.open < e < k && code[e] is Else && scopes(code, e).len() == d + 1 && scopes(code, e)[d].open == s.open
}
pub proof fn home(code: Seq<Instruction>, k: int, d: int)
    requires shaped(code), 0 <= k <= code.len(), 0 <= d < scopes(code, k).len()
    ensures homed(code, k, d)
    decreases k
{
    if k > 0 {
        assert(shaped_at(code, k - 1));
        if d < scopes(code, k - 1).len() { home(code, k - 1, d); }
    }
}
pub proof fn same_scope(code: Seq<Instruction>, i: int, d: int, k: int, e: int)
    requires shaped(code), 0 <= i <= code.len(), 0 <= k <= code.len(), 0 <= d < scopes(code, i).len(), 0 <= e < scopes(code, k).len(), scopes(code, i)[d].open == scopes(code, k)[e].open
    ensures d == e
{ home(code, i, d); home(code, k, e); }
pub proof fn else_seen(code: Seq<Instruction>, a: int, k: int, d: int)
    requires shaped(code), 0 <= a < k <= code.len(), code[a] is Else, scopes(code, a).len() == d + 1, 0 <= d < scopes(code, k).len(), scopes(code, a)[d].open == scopes(code, k)[d].open
    ensures scopes(code, k)[d].alt == Some(a)
    decreases k
{
    assert(shaped_at(code, k - 1));
    if k - 1 > a {
        home(code, a, d);
        if d < scopes(code, k - 1).len() { else_seen(code, a, k - 1, d); }
    }
}
pub proof fn aims_within(code: Seq<Instruction>, i: int, d: int)
    requires shaped(code), aims(code, i, d)
    ensures 0 <= d < scopes(code, i).len(), jumping(code[i])
{
    assert(shaped_at(code, i));
    let l = scopes(code, i).len() - 1 - d;
    if code[i] is BrTable {
        let t = code[i]->BrTable_0;
        if l != t.default { let x = choose|x: int| 0 <= x < t.table@.len() && #[trigger] t.table@[x] == l; assert(in_range(code, i, t.table@[x])); }
    }
}
pub proof fn into_plain(code: Seq<Instruction>, k: int, a: int)
    requires 0 <= k < code.len(), !(code[k] is Else), !(code[k] is End)
    ensures step(code, a, k + 1) <==> a == k && (jumping(code[k]) ==> code[k] is BrIf)
{ }
pub proof fn into_else(code: Seq<Instruction>, k: int, a: int)
    requires shaped(code), 0 <= k < code.len(), code[k] is Else
    ensures step(code, a, k + 1) <==> a == top(code, k).open
{ assert(shaped_at(code, k)); home(code, k, scopes(code, k).len() - 1); }
pub open spec fn meant(code: Seq<Instruction>, k: int, d: int, a: int) -> bool { 0 <= a < k && aims(code, a, d) && d < scopes(code, a).len() && scopes(code, a)[d].open == scopes(code, k)[d].open }
pub open spec fn leads_out(code: Seq<Instruction>, k: int, a: int) -> bool {
    let s = top(code, k);
    a == k || (s.is_if && s.alt is None && a == s.open) || s.alt == Some(a) || meant(code, k, scopes(code, k).len() - 1, a)
}
pub proof fn into_end(code: Seq<Instruction>, k: int, a: int)
    requires shaped(code), 0 <= k < code.len(), code[k] is End
    ensures step(code, a, k + 1) <==> leads_out(code, k, a)
{
    assert(shaped_at(code, k));
    let d = scopes(code, k).len() - 1;
    home(code, k, d);
    if step(code, a, k + 1) {
        assert(shaped_at(code, a));
        if jumping(code[a]) {
            let e = choose|e: int| #[trigger] jumps(code, a, e, k + 1);
            aims_within(code, a, e);
            same_scope(code, a, e, k, d);
        } else if code[a] is Else {
            home(code, a, scopes(code, a).len() - 1);
            same_scope(code, a, scopes(code, a).len() - 1, k, d);
            else_seen(code, a, k, d);
        }
    }
    if meant(code, k, d, a) { aims_within(code, a, d); assert(jumps(code, a, d, k + 1)); }
}
// ---- the invariant
pub open spec fn flow(bs: Seq<BlockRef>, code: Seq<Instruction>, k: int, blk: Seq<int>) -> bool {
    &&& blocked(code, blk, k) && bs.len() == blk[k] + 1
    &&& forall|x: int| 0 <= x < bs.len() ==> holds(#[trigger] ops(bs, x), code, spots(code, blk, k, x))
    &&& forall|x: int, y: int| #[trigger] arrow(bs, x, y) <==> link(code, blk, k, x, y)
}
pub proof fn same_spots(code: Seq<Instruction>, blk: Seq<int>, y: int, k: int, x: int)
    requires 0 <= k <= blk.len()
    ensures spots(code, blk.push(y), k, x) == spots(code, blk, k, x)
    decreases k
{ if k > 0 { same_spots(code, blk, y, k - 1, x); } }
pub proof fn blk_bound(code: Seq<Instruction>, blk: Seq<int>, k: int, i: int)
    requires blocked(code, blk, k), 0 <= i <= k
    ensures 1 <= blk[i] <= blk[k], blk[k] <= k + 1
    decreases k - i, k
{
    if i < k { blk_bound(code, blk, k, i + 1); assert(follows(code, blk, i)); }
    blk_low(code, blk, k, i); blk_high(code, blk, k, k);
}
pub proof fn blk_low(code: Seq<Instruction>, blk: Seq<int>, k: int, i: int)
    requires blocked(code, blk, k), 0 <= i <= k
    ensures 1 <= blk[i]
    decreases i
{ if i > 0 { blk_low(code, blk, k, i - 1); assert(follows(code, blk, i - 1)); } }
pub proof fn blk_high(code: Seq<Instruction>, blk: Seq<int>, k: int, i: int)
    requires blocked(code, blk, k), 0 <= i <= k
    ensures blk[i] <= i + 1
    decreases i
{ if i > 0 { blk_high(code, blk, k, i - 1); assert(follows(code, blk, i - 1)); } }
pub proof fn blocked_push(code: Seq<Instruction>, k: int, blk: Seq<int>, y: int)
    requires blocked(code, blk, k), 0 <= k < code.len(), y == blk[k] + 1 || (y == blk[k] && within(code, blk, k))
    ensures blocked(code, blk.push(y), k + 1)
{
    let b2 = blk.push(y);
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] follows(code, b2, i) by { if i < k { assert(follows(code, blk, i)); } }
}
pub proof fn links_push(code: Seq<Instruction>, k: int, blk: Seq<int>, q: int, x: int, y: int)
    requires blocked(code, blk, k), 0 <= k < code.len(), q == blk[k] || q == blk[k] + 1
    ensures link(code, blk.push(q), k + 1, x, y) <==> link(code, blk, k, x, y) || (y == q && x != q && steps_from(code, blk, k, x))
{
    let b2 = blk.push(q);
    if link(code, blk, k, x, y) && !(x == 0 && y == 1) { let (i, j) = choose|i: int, j: int| #[trigger] crosses(code, blk, k, i, j, x, y); assert(crosses(code, b2, k + 1, i, j, x, y)); }
    if y == q && x != q && steps_from(code, blk, k, x) { let a = choose|a: int| #[trigger] step(code, a, k + 1) && blk[a] == x; assert(crosses(code, b2, k + 1, a, k + 1, x, y)); }
    if link(code, b2, k + 1, x, y) && !(x == 0 && y == 1) {
        let (i, j) = choose|i: int, j: int| #[trigger] crosses(code, b2, k + 1, i, j, x, y);
        if j == k + 1 { assert(step(code, i, k + 1) && blk[i] == x); } else { assert(crosses(code, blk, k, i, j, x, y)); }
    }
}
pub proof fn holds_push(a: Seq<Op>, o: Seq<Op>, code: Seq<Instruction>, at: Seq<int>, k: int)
    requires holds(o, code, at), a.len() == o.len() + 1, a.subrange(0, o.len() as int) == o, *a.last().raw == code[k]
    ensures holds(a, code, at.push(k))
{
    assert forall|i: int| 0 <= i < a.len() implies *(#[trigger] a[i]).raw == code[at.push(k)[i]] by {
        if i < o.len() { assert(a[i] == a.subrange(0, o.len() as int)[i]); assert(*o[i].raw == code[at[i]]); }
    }
}
/// Instruction k goes on in the same block.
pub proof fn stay(bs: Seq<BlockRef>, os: Seq<BlockRef>, code: Seq<Instruction>, k: int, blk: Seq<int>)
    requires flow(os, code, k, blk), 0 <= k < code.len(), bs.len() == os.len(), within(code, blk, k),
        forall|x: int, y: int| #[trigger] arrow(bs, x, y) <==> arrow(os, x, y),
        forall|x: int| 0 <= x < bs.len() - 1 ==> #[trigger] ops(bs, x) == ops(os, x),
        charged(code[k]) ==> ops(bs, blk[k]).len() == ops(os, blk[k]).len() + 1 && ops(bs, blk[k]).subrange(0, ops(os, blk[k]).len() as int) == ops(os, blk[k]) && *ops(bs, blk[k]).last().raw == code[k],
        !charged(code[k]) ==> ops(bs, blk[k]) == ops(os, blk[k]),
    ensures flow(bs, code, k + 1, blk.push(blk[k]))
{
    hide(arrow); hide(link); hide(holds); hide(steps_from); hide(ops); hide(charged);
    let b2 = blk.push(blk[k]);
    blocked_push(code, k, blk, blk[k]);
    assert forall|x: int| 0 <= x < bs.len() implies holds(#[trigger] ops(bs, x), code, spots(code, b2, k + 1, x)) by {
        same_spots(code, blk, blk[k], k, x);
        assert(holds(ops(os, x), code, spots(code, blk, k, x)));
        if x == blk[k] && charged(code[k]) { holds_push(ops(bs, x), ops(os, x), code, spots(code, blk, k, x), k); }
    }
    assert forall|x: int, y: int| #[trigger] arrow(bs, x, y) <==> link(code, b2, k + 1, x, y) by {
        assert(arrow(os, x, y) <==> link(code, blk, k, x, y));
        links_push(code, k, blk, blk[k], x, y);
        only_self(code, k, blk, x);
    }
}
pub proof fn only_self(code: Seq<Instruction>, k: int, blk: Seq<int>, x: int)
    requires within(code, blk, k)
    ensures steps_from(code, blk, k, x) ==> x == blk[k]
{ if steps_from(code, blk, k, x) { let a = choose|a: int| #[trigger] step(code, a, k + 1) && blk[a] == x; assert(a == k); } }
pub open spec fn steps_from(code: Seq<Instruction>, blk: Seq<int>, k: int, x: int) -> bool { exists|a: int| #[trigger] step(code, a, k + 1) && blk[a] == x }
/// Instruction k ends its block.
pub proof fn turn(bs: Seq<BlockRef>, os: Seq<BlockRef>, code: Seq<Instruction>, k: int, blk: Seq<int>)
    requires flow(os, code, k, blk), 0 <= k < code.len(), bs.len() == os.len() + 1, !charged(code[k]), same_ops(bs, os), ops(bs, os.len() as int) == Seq::<Op>::empty(),
        forall|x: int, y: int| #[trigger] arrow(bs, x, y) <==> arrow(os, x, y) || (y == os.len() && steps_from(code, blk, k, x)),
    ensures flow(bs, code, k + 1, blk.push(blk[k] + 1))
{
    hide(arrow); hide(link); hide(holds); hide(spots); hide(steps_from); hide(ops); hide(charged); hide(within);
    let b2 = blk.push(blk[k] + 1); let new = os.len() as int;
    blocked_push(code, k, blk, blk[k] + 1);
    assert forall|x: int| 0 <= x < bs.len() implies holds(#[trigger] ops(bs, x), code, spots(code, b2, k + 1, x)) by {
        if x < new { assert(ops(bs, x) == ops(os, x)); assert(holds(ops(os, x), code, spots(code, blk, k, x))); }
        turn_ops(ops(bs, x), code, k, blk, x);
    }
    assert forall|x: int, y: int| #[trigger] arrow(bs, x, y) <==> link(code, b2, k + 1, x, y) by {
        assert(arrow(os, x, y) <==> link(code, blk, k, x, y));
        turn_link(code, k, blk, x, y);
    }
}
pub proof fn turn_ops(a: Seq<Op>, code: Seq<Instruction>, k: int, blk: Seq<int>, x: int)
    requires blocked(code, blk, k), 0 <= k < code.len(), !charged(code[k]), if x <= blk[k] { holds(a, code, spots(code, blk, k, x)) } else { a == Seq::<Op>::empty() }
    ensures holds(a, code, spots(code, blk.push(blk[k] + 1), k + 1, x))
{
    same_spots(code, blk, blk[k] + 1, k, x);
    if x > blk[k] { no_spots(code, blk, k, k, x); }
}
pub proof fn turn_link(code: Seq<Instruction>, k: int, blk: Seq<int>, x: int, y: int)
    requires blocked(code, blk, k), 0 <= k < code.len()
    ensures link(code, blk.push(blk[k] + 1), k + 1, x, y) <==> link(code, blk, k, x, y) || (y == blk[k] + 1 && steps_from(code, blk, k, x))
{
    links_push(code, k, blk, blk[k] + 1, x, y);
    if steps_from(code, blk, k, x) { let a = choose|a: int| #[trigger] step(code, a, k + 1) && blk[a] == x; blk_bound(code, blk, k, a); }
}
pub proof fn no_spots(code: Seq<Instruction>, blk: Seq<int>, k: int, i: int, x: int)
    requires blocked(code, blk, k), 0 <= i <= k, x > blk[k]
    ensures spots(code, blk, i, x) == Seq::<int>::empty()
    decreases i
{ if i > 0 { blk_bound(code, blk, k, i - 1); no_spots(code, blk, k, i - 1, x); } }
/// A jump in block x is to the end of scope d around instruction k.
pub open spec fn owed(code: Seq<Instruction>, blk: Seq<int>, k: int, d: int, x: int) -> bool { 0 <= d < scopes(code, k).len() && exists|i: int| #[trigger] meant(code, k, d, i) && blk[i] == x }
pub open spec fn pend(m: Map<Depth, Vec<UnresolvedJump>>, code: Seq<Instruction>, k: int, blk: Seq<int>) -> bool {
    &&& forall|d: Depth| #[trigger] m.contains_key(d) ==> d.0 < scopes(code, k).len()
    &&& forall|d: int, x: int| #[trigger] waiting(m, d, x) <==> owed(code, blk, k, d, x)
}
pub open spec fn conts(c: Map<Depth, DepthUnresolvedCont>, code: Seq<Instruction>, k: int, blk: Seq<int>) -> bool { forall|d: Depth| #[trigger] cont_ok(c, code, k, blk, d) }
pub open spec fn cont_ok(c: Map<Depth, DepthUnresolvedCont>, code: Seq<Instruction>, k: int, blk: Seq<int>, d: Depth) -> bool {
    let s = scopes(code, k)[d.0 as int];
    &&& c.contains_key(d) <==> d.0 < scopes(code, k).len() && s.is_if
    &&& c.contains_key(d) ==> match s.alt {
        None => c[d] == (DepthUnresolvedCont { on_if_false: Some(L(blk[s.open] as usize)), after_if: Some(L(blk[s.open] as usize)), after_then: None }),
        Some(e) => c[d] == (DepthUnresolvedCont { on_if_false: None, after_if: None, after_then: Some(L(blk[e] as usize)) }),
    }
}
impl<'f> CFGBuilder<'f> {
    pub open spec fn inv(&self, code: Seq<Instruction>, k: int, blk: Seq<int>) -> bool {
        &&& self.ok() && self.current_depth.0 == scopes(code, k).len() && blk[k] == self.cur()
        &&& flow(self.blocks@, code, k, blk) && pend(self.unresolved_jumps@, code, k, blk) && conts(self.unresolved_cont@, code, k, blk)
    }
}
/// The jumps waiting after instruction k: those waiting before, k's own, without those of the scope it closes.
pub proof fn pend_next(m: Map<Depth, Vec<UnresolvedJump>>, o: Map<Depth, Vec<UnresolvedJump>>, code: Seq<Instruction>, k: int, blk: Seq<int>, y: int)
    requires shaped(code), 0 <= k < code.len(), pend(o, code, k, blk), blk.len() == k + 1,
        forall|d: Depth| #[trigger] m.contains_key(d) ==> d.0 < scopes(code, k + 1).len(),
        forall|d: int, x: int| #[trigger] waiting(m, d, x) <==> d < scopes(code, k + 1).len() && (waiting(o, d, x) || (x == blk[k] && aims(code, k, d))),
    ensures pend(m, code, k + 1, blk.push(y))
{
    let b2 = blk.push(y);
    assert(shaped_at(code, k));
    assert forall|d: int, x: int| #[trigger] waiting(m, d, x) <==> owed(code, b2, k + 1, d, x) by {
        assert(waiting(o, d, x) <==> owed(code, blk, k, d, x));
        if waiting(m, d, x) {
            if waiting(o, d, x) { let i = choose|i: int| #[trigger] meant(code, k, d, i) && blk[i] == x; assert(meant(code, k + 1, d, i)); assert(b2[i] == x); }
            else { aims_within(code, k, d); assert(meant(code, k + 1, d, k)); assert(b2[k] == x); }
        }
        if owed(code, b2, k + 1, d, x) {
            let i = choose|i: int| #[trigger] meant(code, k + 1, d, i) && b2[i] == x;
            aims_within(code, i, d); home(code, i, d);
            if i < k { if d < scopes(code, k).len() { assert(meant(code, k, d, i)); assert(blk[i] == x); } else { home(code, k + 1, d); assert(false); } }
        }
    }
}
/// The ifs waiting for their end after instruction k, which is neither if, else nor end.
pub proof fn conts_same(c: Map<Depth, DepthUnresolvedCont>, code: Seq<Instruction>, k: int, blk: Seq<int>, y: int)
    requires shaped(code), 0 <= k < code.len(), conts(c, code, k, blk), blk.len() == k + 1, !(code[k] is If), !(code[k] is Else), !(code[k] is End)
    ensures conts(c, code, k + 1, blk.push(y))
{
    assert(shaped_at(code, k));
    assert forall|d: Depth| #[trigger] cont_ok(c, code, k + 1, blk.push(y), d) by { assert(cont_ok(c, code, k, blk, d)); if d.0 < scopes(code, k).len() { home(code, k, d.0 as int); } }
}
pub proof fn conts_if(c: Map<Depth, DepthUnresolvedCont>, o: Map<Depth, DepthUnresolvedCont>, code: Seq<Instruction>, k: int, blk: Seq<int>, y: int)
    requires shaped(code), 0 <= k < code.len(), conts(o, code, k, blk), blk.len() == k + 1, code[k] is If, scopes(code, k).len() <= u32::MAX,
        c == o.insert(Depth(scopes(code, k).len() as u32), DepthUnresolvedCont { on_if_false: Some(L(blk[k] as usize)), after_if: Some(L(blk[k] as usize)), after_then: None }),
    ensures conts(c, code, k + 1, blk.push(y))
{
    assert(shaped_at(code, k));
    assert forall|d: Depth| #[trigger] cont_ok(c, code, k + 1, blk.push(y), d) by { assert(cont_ok(o, code, k, blk, d)); if d.0 < scopes(code, k).len() { home(code, k, d.0 as int); } }
}
pub proof fn conts_else(c: Map<Depth, DepthUnresolvedCont>, o: Map<Depth, DepthUnresolvedCont>, code: Seq<Instruction>, k: int, blk: Seq<int>, y: int)
    requires shaped(code), 0 <= k < code.len(), conts(o, code, k, blk), blk.len() == k + 1, code[k] is Else, scopes(code, k).len() <= u32::MAX,
        c == o.insert(Depth((scopes(code, k).len() - 1) as u32), DepthUnresolvedCont { on_if_false: None, after_if: None, after_then: Some(L(blk[k] as usize)) }),
    ensures conts(c, code, k + 1, blk.push(y))
{
    assert(shaped_at(code, k));
    assert forall|d: Depth| #[trigger] cont_ok(c, code, k + 1, blk.push(y), d) by { assert(cont_ok(o, code, k, blk, d)); if d.0 < scopes(code, k).len() { home(code, k, d.0 as int); } }
}
pub proof fn conts_end(c: Map<Depth, DepthUnresolvedCont>, o: Map<Depth, DepthUnresolvedCont>, code: Seq<Instruction>, k: int, blk: Seq<int>, y: int)
    requires shaped(code), 0 <= k < code.len(), conts(o, code, k, blk), blk.len() == k + 1, code[k] is End, scopes(code, k).len() <= u32::MAX,
        c == o.remove(Depth((scopes(code, k).len() - 1) as u32)) || (c == o && !top(code, k).is_if),
    ensures conts(c, code, k + 1, blk.push(y))
{
    assert(shaped_at(code, k));
    assert forall|d: Depth| #[trigger] cont_ok(c, code, k + 1, blk.push(y), d) by { assert(cont_ok(o, code, k, blk, d)); if d.0 < scopes(code, k).len() { home(code, k, d.0 as int); } }
}
pub proof fn depth_bound(code: Seq<Instruction>, k: int)
    requires shaped(code), 0 <= k <= code.len()
    ensures scopes(code, k).len() <= k + 1
    decreases k
{ if k > 0 { depth_bound(code, k - 1); assert(shaped_at(code, k - 1)); } }
/// What holds before each instruction is handled.
pub proof fn ready(b: CFGBuilder, code: Seq<Instruction>, k: int, blk: Seq<int>)
    requires shaped(code), 0 <= k < code.len(), b.inv(code, k, blk)
    ensures b.blocks@.len() < usize::MAX - 2, 1 <= b.current_depth.0 < u32::MAX,
        code[k] is If ==> !b.unresolved_cont@.contains_key(b.current_depth),
        code[k] is Else ==> b.unresolved_cont@.contains_key(b.up()) && (b.cont().on_if_false matches Some(a) && a.0 == blk[top(code, k).open] && a.0 < b.blocks@.len()),
        code[k] is End ==> b.leaving() && match at(b.pending_end()) { None => !top(code, k).is_if, Some(x) => top(code, k).is_if && x == blk[if top(code, k).alt is Some { top(code, k).alt->Some_0 } else { top(code, k).open }] && x < b.blocks@.len() },
        code[k] is End && b.unresolved_cont@.contains_key(b.up()) ==> b.pending_end() is Some && (b.cont().after_then is None || b.cont().after_if is None),
{
    assert(shaped_at(code, k)); depth_bound(code, k); blk_bound(code, blk, k, k);
    let d = scopes(code, k).len() - 1;
    home(code, k, d);
    assert(cont_ok(b.unresolved_cont@, code, k, blk, b.up())); assert(cont_ok(b.unresolved_cont@, code, k, blk, b.current_depth));
    let s = top(code, k);
    if s.is_if { blk_bound(code, blk, k, s.open); if s.alt is Some { blk_bound(code, blk, k, s.alt->Some_0); } }
    if code[k] is End {
        assert forall|x: int| #[trigger] waiting(b.unresolved_jumps@, b.up().0 as int, x) implies 0 <= x < b.blocks@.len() by {
            assert(owed(code, blk, k, d, x));
            let i = choose|i: int| #[trigger] meant(code, k, d, i) && blk[i] == x; blk_bound(code, blk, k, i);
        }
    }
}
pub proof fn next_plain(b: CFGBuilder, o: CFGBuilder, code: Seq<Instruction>, k: int, blk: Seq<int>, op: Op)
    requires shaped(code), 0 <= k < code.len(), o.inv(code, k, blk), charged(code[k]), b.ok(), b.block_num == o.block_num, b.unresolved_jumps == o.unresolved_jumps, b.unresolved_cont == o.unresolved_cont,
        b.current_depth.0 == o.current_depth.0 + (if code[k] is Block { 1int } else { 0 }), appended(b.blocks@, o.blocks@, op), *op.raw == code[k],
    ensures b.inv(code, k + 1, blk.push(blk[k]))
{
    assert(shaped_at(code, k));
    assert forall|a: int| #[trigger] step(code, a, k + 1) <==> a == k by { into_plain(code, k, a); }
    let a = ops(b.blocks@, blk[k]); let q = ops(o.blocks@, blk[k]);
    assert(a.subrange(0, q.len() as int) =~= q);
    stay(b.blocks@, o.blocks@, code, k, blk);
    conts_same(b.unresolved_cont@, code, k, blk, blk[k]);
    pend_same(b, o, code, k, blk, blk[k]);
}
pub proof fn pend_same(b: CFGBuilder, o: CFGBuilder, code: Seq<Instruction>, k: int, blk: Seq<int>, y: int)
    requires shaped(code), 0 <= k < code.len(), o.inv(code, k, blk), !jumping(code[k]), !(code[k] is End), b.unresolved_jumps == o.unresolved_jumps
    ensures pend(b.unresolved_jumps@, code, k + 1, blk.push(y))
{
    assert(shaped_at(code, k));
    assert forall|d: int, x: int| #[trigger] waiting(b.unresolved_jumps@, d, x) <==> d < scopes(code, k + 1).len() && (waiting(o.unresolved_jumps@, d, x) || (x == blk[k] && aims(code, k, d))) by {
        if waiting(o.unresolved_jumps@, d, x) { assert(owed(code, blk, k, d, x)); }
        if aims(code, k, d) { aims_within(code, k, d); }
    }
    pend_next(b.unresolved_jumps@, o.unresolved_jumps@, code, k, blk, y);
}
pub proof fn next_jump(b: CFGBuilder, o: CFGBuilder, code: Seq<Instruction>, k: int, blk: Seq<int>)
    requires shaped(code), 0 <= k < code.len(), o.inv(code, k, blk), jumping(code[k]), jumped(b, o, code[k])
    ensures b.inv(code, k + 1, blk.push(blk[k] + 1))
{
    assert(shaped_at(code, k));
    assert forall|x: int| #[trigger] steps_from(code, blk, k, x) <==> code[k] is BrIf && x == blk[k] by {
        if steps_from(code, blk, k, x) { let a = choose|a: int| #[trigger] step(code, a, k + 1) && blk[a] == x; into_plain(code, k, a); }
        into_plain(code, k, k);
        if code[k] is BrIf { assert(step(code, k, k + 1)); }
    }
    turn(b.blocks@, o.blocks@, code, k, blk);
    conts_same(b.unresolved_cont@, code, k, blk, blk[k] + 1);
    assert forall|d: int, x: int| #[trigger] waiting(b.unresolved_jumps@, d, x) <==> d < scopes(code, k + 1).len() && (waiting(o.unresolved_jumps@, d, x) || (x == blk[k] && aims(code, k, d))) by {
        if waiting(o.unresolved_jumps@, d, x) { assert(owed(code, blk, k, d, x)); }
        if aims(code, k, d) { aims_within(code, k, d); }
    }
    pend_next(b.unresolved_jumps@, o.unresolved_jumps@, code, k, blk, blk[k] + 1);
}
pub proof fn next_if(b: CFGBuilder, o: CFGBuilder, code: Seq<Instruction>, k: int, blk: Seq<int>)
    requires shaped(code), 0 <= k < code.len(), o.inv(code, k, blk), code[k] is If, b.ok(), b.current_depth.0 == o.current_depth.0 + 1, b.unresolved_jumps == o.unresolved_jumps,
        b.unresolved_cont@ == o.unresolved_cont@.insert(o.current_depth, DepthUnresolvedCont { on_if_false: Some(o.block_num), after_if: Some(o.block_num), after_then: None }),
        turned(b.blocks@, o.blocks@, o.cur()),
    ensures b.inv(code, k + 1, blk.push(blk[k] + 1))
{
    assert(shaped_at(code, k));
    assert forall|x: int| #[trigger] steps_from(code, blk, k, x) <==> x == blk[k] by {
        if steps_from(code, blk, k, x) { let a = choose|a: int| #[trigger] step(code, a, k + 1) && blk[a] == x; into_plain(code, k, a); }
        into_plain(code, k, k); assert(step(code, k, k + 1));
    }
    turn(b.blocks@, o.blocks@, code, k, blk);
    depth_bound(code, k);
    assert(o.block_num == L(blk[k] as usize));
    conts_if(b.unresolved_cont@, o.unresolved_cont@, code, k, blk, blk[k] + 1);
    pend_same(b, o, code, k, blk, blk[k] + 1);
}
pub proof fn next_else(b: CFGBuilder, o: CFGBuilder, code: Seq<Instruction>, k: int, blk: Seq<int>)
    requires shaped(code), 0 <= k < code.len(), o.inv(code, k, blk), code[k] is Else, b.ok(), b.current_depth == o.current_depth, b.unresolved_jumps == o.unresolved_jumps,
        b.unresolved_cont@ == o.unresolved_cont@.insert(o.up(), DepthUnresolvedCont { on_if_false: None, after_if: None, after_then: Some(o.block_num) }),
        turned(b.blocks@, o.blocks@, o.cont().on_if_false->Some_0.0 as int),
    ensures b.inv(code, k + 1, blk.push(blk[k] + 1))
{
    assert(shaped_at(code, k)); ready(o, code, k, blk);
    assert forall|x: int| #[trigger] steps_from(code, blk, k, x) <==> x == blk[top(code, k).open] by {
        if steps_from(code, blk, k, x) { let a = choose|a: int| #[trigger] step(code, a, k + 1) && blk[a] == x; into_else(code, k, a); }
        into_else(code, k, top(code, k).open); assert(step(code, top(code, k).open, k + 1));
    }
    turn(b.blocks@, o.blocks@, code, k, blk);
    depth_bound(code, k);
    assert(o.block_num == L(blk[k] as usize));
    conts_else(b.unresolved_cont@, o.unresolved_cont@, code, k, blk, blk[k] + 1);
    pend_same(b, o, code, k, blk, blk[k] + 1);
}
pub proof fn end_from(o: CFGBuilder, code: Seq<Instruction>, k: int, blk: Seq<int>, x: int)
    requires shaped(code), 0 <= k < code.len(), o.inv(code, k, blk), code[k] is End
    ensures steps_from(code, blk, k, x) <==> x == blk[k] || Some(x) == at(o.pending_end()) || waiting(o.unresolved_jumps@, o.up().0 as int, x)
{
    assert(shaped_at(code, k)); ready(o, code, k, blk);
    let d = scopes(code, k).len() - 1; let s = top(code, k);
    assert(o.up().0 as int == d);
    home(code, k, d);
    assert(waiting(o.unresolved_jumps@, d, x) <==> owed(code, blk, k, d, x));
    if steps_from(code, blk, k, x) {
        let a = choose|a: int| #[trigger] step(code, a, k + 1) && blk[a] == x;
        into_end(code, k, a);
        if meant(code, k, d, a) { assert(owed(code, blk, k, d, x)); }
    }
    if x == blk[k] { into_end(code, k, k); assert(step(code, k, k + 1)); }
    if Some(x) == at(o.pending_end()) { let a = if s.alt is Some { s.alt->Some_0 } else { s.open }; into_end(code, k, a); assert(step(code, a, k + 1) && blk[a] == x); }
    if owed(code, blk, k, d, x) { let a = choose|i: int| #[trigger] meant(code, k, d, i) && blk[i] == x; into_end(code, k, a); assert(step(code, a, k + 1) && blk[a] == x); }
}
/// The block after the end of a scope.
pub open spec fn after_end(o: CFGBuilder, blk: Seq<int>, k: int) -> int { if o.pending_end() is Some || some_waiting(o.unresolved_jumps@, o.up().0 as int) { blk[k] + 1 } else { blk[k] } }
pub proof fn next_end(b: CFGBuilder, o: CFGBuilder, code: Seq<Instruction>, k: int, blk: Seq<int>)
    requires shaped(code), 0 <= k < code.len(), o.inv(code, k, blk), code[k] is End, b.left(&o, o.pending_end())
    ensures b.inv(code, k + 1, blk.push(after_end(o, blk, k)))
{
    assert(shaped_at(code, k)); ready(o, code, k, blk); depth_bound(code, k);
    let y = after_end(o, blk, k); let d = scopes(code, k).len() - 1;
    assert(o.up().0 as int == d);
    if y == blk[k] + 1 {
        assert forall|x: int| #[trigger] steps_from(code, blk, k, x) <==> x == blk[k] || Some(x) == at(o.pending_end()) || waiting(o.unresolved_jumps@, d, x) by { end_from(o, code, k, blk, x); }
        turn(b.blocks@, o.blocks@, code, k, blk);
    } else {
        assert forall|a: int| #[trigger] step(code, a, k + 1) <==> a == k by {
            into_end(code, k, a);
            if meant(code, k, d, a) { assert(owed(code, blk, k, d, blk[a])); assert(waiting(o.unresolved_jumps@, d, blk[a])); }
            home(code, k, d);
        }
        stay(b.blocks@, o.blocks@, code, k, blk);
    }
    conts_end(b.unresolved_cont@, o.unresolved_cont@, code, k, blk, y);
    let m = b.unresolved_jumps@; let w = o.unresolved_jumps@;
    assert forall|e: Depth| #[trigger] m.contains_key(e) implies e.0 < scopes(code, k + 1).len() by { assert(w.contains_key(e) && e != o.up()); }
    assert forall|e: int, x: int| #[trigger] waiting(m, e, x) <==> e < scopes(code, k + 1).len() && (waiting(w, e, x) || (x == blk[k] && aims(code, k, e))) by {
        if waiting(m, e, x) { let i = choose|i: int| 0 <= i < m[Depth(e as u32)]@.len() && #[trigger] waiting_at(m, e, i) == x; assert(waiting_at(w, e, i) == x); assert(waiting(w, e, x)); assert(owed(code, blk, k, e, x)); assert(Depth(e as u32) != o.up()); }
        if waiting(w, e, x) && e < scopes(code, k + 1).len() { let i = choose|i: int| 0 <= i < w[Depth(e as u32)]@.len() && #[trigger] waiting_at(w, e, i) == x; assert(Depth(e as u32) != o.up()); assert(waiting_at(m, e, i) == x); }
    }
    pend_next(m, w, code, k, blk, y);
}
/// A jump was handled.
pub open spec fn jumped(b: CFGBuilder, o: CFGBuilder, i: Instruction) -> bool {
    &&& b.ok() && b.current_depth == o.current_depth && b.unresolved_cont == o.unresolved_cont
    &&& b.blocks@.len() == o.blocks@.len() + 1 && same_ops(b.blocks@, o.blocks@) && ops(b.blocks@, o.blocks@.len() as int) == Seq::<Op>::empty()
    &&& forall|x: int, y: int| #[trigger] arrow(b.blocks@, x, y) <==> arrow(o.blocks@, x, y) || (i is BrIf && x == o.cur() && y == o.blocks@.len())
    &&& forall|d: Depth| #[trigger] b.unresolved_jumps@.contains_key(d) ==> o.unresolved_jumps@.contains_key(d) || d.0 < o.current_depth.0
    &&& forall|d: int, x: int| #[trigger] waiting(b.unresolved_jumps@, d, x) <==> waiting(o.unresolved_jumps@, d, x) || (x == o.cur() && aim(i, o.current_depth.0 as int, d))
}
//@item gjumpw struct:WasmBrTable
//@item gjumpw enum:WasmJump
//@item-eq gcfg enum:OpKind
#[verifier::external_body]
pub fn same_labels(b: &Box<[u32]>) -> (r: Box<[u32]>) ensures r@ == b@ { unimplemented!() }
impl WasmBrTable {
//@fn gjumpw WasmBrTable::default
//@contract
    ensures r == self.default
//@endfn
//@fn gjumpw WasmBrTable::iter as=model_iter_ref
//@local core :: slice :: Iter < '_ , u32 > ==> VecIter<&u32>
//@local \.labels\.iter \(\) ==> .labels.model_iter_ref()
//@contract
    ensures r.i@ == 0, r.v@.len() == self.labels@.len(), forall|i: int| 0 <= i < r.v@.len() ==> *(#[trigger] r.v@[i]) == self.labels@[i]
//@endfn
}
pub open spec fn jump_of(i: Instruction, j: WasmJump) -> bool {
    match j {
        WasmJump::Return => i is Return,
        WasmJump::Unreachable => i is Unreachable,
        WasmJump::Br(l) => i == Instruction::Br(l),
        WasmJump::BrIf(l) => i == Instruction::BrIf(l),
        WasmJump::BrTable(t) => i is BrTable && i->BrTable_0.default == t.default && i->BrTable_0.table@ == t.labels@,
    }
}
impl WasmJump {
//@fn gjumpw From<&Instruction>@WasmJump::from
//@local match \* op ==> match op
//@local ref table ==> table
//@local (WasmJump :: Br(?:If)? )\(index\) ==> \1(*index)
//@local table\.table\.clone \(\) ==> same_labels(&table.table)
//@contract
    requires jumping(*op)
    ensures jump_of(*op, r)
//@endfn
}
//@fn gcfg target_depth
//@local current - label - 1u32 ==> current.sub(label).sub(1u32)
//@contract
    requires label < current.0
    ensures r.0 == current.0 - label - 1
//@endfn
//@fn gcfg add_jump
//@contract
    ensures *final(builder) == (CFGBuilder { unresolved_jumps: final(builder).unresolved_jumps, ..*old(builder) }),
        final(builder).unresolved_jumps@.dom() == old(builder).unresolved_jumps@.dom().insert(target_depth),
        forall|d: int, x: int| #[trigger] waiting(final(builder).unresolved_jumps@, d, x) <==> waiting(old(builder).unresolved_jumps@, d, x) || (d == target_depth.0 && x == origin.0),
//@endfn
//@fn gcfg add_continuation
//@contract
    requires old(builder).ok(), origin.0 < old(builder).blocks@.len(), target.0 < old(builder).blocks@.len()
    ensures final(builder).ok(), linked(final(builder).blocks@, old(builder).blocks@, origin.0 as int, target.0 as int), *final(builder) == (CFGBuilder { blocks: final(builder).blocks, ..*old(builder) })
//@endfn
pub open spec fn labels_in(i: Instruction, depth: int) -> bool { jumping(i) && depth >= 1 && forall|l: int| #[trigger] label_of(i, l) ==> l < depth }
//@fn gcfg on_jump
//@local op\.raw \(\)\.into \(\) ==> WasmJump::from(op.raw())
//@contract
    requires old(builder).ok(), old(builder).blocks@.len() < usize::MAX - 2, labels_in(*op.raw, old(builder).current_depth.0 as int)
    ensures jumped(*final(builder), *old(builder), *op.raw)
//@begin
    proof { let i = *op.raw; if i is Br { assert(label_of(i, i->Br_0 as int)); } else if i is BrIf { assert(label_of(i, i->BrIf_0 as int)); } else if i is BrTable { assert(label_of(i, i->BrTable_0.default as int)); } }
//@before 0
    let ghost i = *op.raw; let ghost tb = i->BrTable_0.table@; let ghost dep = depth.0 as int;
    proof { assert(label_of(i, i->BrTable_0.default as int)); }
//@inv 0
    invariant
        i == *op.raw, i is BrTable, tb == i->BrTable_0.table@, dep == depth.0, dep == old(builder).current_depth.0, labels_in(i, dep), origin.0 == old(builder).cur(), 0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == tb.len(),
        forall|q: int| 0 <= q < tb.len() ==> *(#[trigger] __it0.v@[q]) == tb[q],
        builder.ok(), builder.current_depth == old(builder).current_depth, builder.unresolved_cont == old(builder).unresolved_cont, grown(builder.blocks@, old(builder).blocks@),
        forall|d: Depth| #[trigger] builder.unresolved_jumps@.contains_key(d) ==> old(builder).unresolved_jumps@.contains_key(d) || d.0 < dep,
        forall|d: int, x: int| #[trigger] waiting(builder.unresolved_jumps@, d, x) <==> waiting(old(builder).unresolved_jumps@, d, x) || (x == old(builder).cur() && listed(tb, i->BrTable_0.default as int, __it0.i@, dep - 1 - d)),
    ensures __it0.i@ == tb.len()
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost m = builder.unresolved_jumps@; let ghost q = __it0.i@; let ghost vs = __it0.v@;
    proof { if q < tb.len() { assert(*vs[q] == tb[q]); assert(tb[q] == tb[q]); assert(label_of(i, tb[q] as int)); } }
//@bot 0
    proof {
        assert forall|d: int, x: int| #[trigger] waiting(builder.unresolved_jumps@, d, x) <==> waiting(old(builder).unresolved_jumps@, d, x) || (x == old(builder).cur() && listed(tb, i->BrTable_0.default as int, q + 1, dep - 1 - d)) by {
            assert(waiting(builder.unresolved_jumps@, d, x) <==> waiting(m, d, x) || (d == dep - tb[q] - 1 && x == origin.0));
            listed_step(tb, i->BrTable_0.default as int, q, dep - 1 - d);
        }
    }
//@end
    proof {
        let i = *op.raw;
        assert forall|d: int, x: int| #[trigger] waiting(builder.unresolved_jumps@, d, x) <==> waiting(old(builder).unresolved_jumps@, d, x) || (x == old(builder).cur() && aim(i, old(builder).current_depth.0 as int, d)) by {}
    }
//@endfn
pub open spec fn listed(tb: Seq<u32>, def: int, n: int, l: int) -> bool { l == def || exists|x: int| 0 <= x < n && #[trigger] tb[x] == l }
pub proof fn listed_step(tb: Seq<u32>, def: int, n: int, l: int)
    requires 0 <= n < tb.len()
    ensures listed(tb, def, n + 1, l) <==> listed(tb, def, n, l) || l == tb[n]
{
    if listed(tb, def, n + 1, l) && l != def { let x = choose|x: int| 0 <= x < n + 1 && #[trigger] tb[x] == l; if x < n { assert(tb[x] == l); } }
    if listed(tb, def, n, l) && l != def { let x = choose|x: int| 0 <= x < n && #[trigger] tb[x] == l; assert(tb[x] == l); }
    if l == tb[n] { assert(tb[n] == l); }
}
//@fn gcfg on_if
//@contract
    requires old(builder).ok(), old(builder).current_depth.0 < u32::MAX, old(builder).blocks@.len() < usize::MAX - 1, !old(builder).unresolved_cont@.contains_key(old(builder).current_depth)
    ensures final(builder).ok(), final(builder).current_depth.0 == old(builder).current_depth.0 + 1, final(builder).unresolved_jumps == old(builder).unresolved_jumps,
        final(builder).unresolved_cont@ == old(builder).unresolved_cont@.insert(old(builder).current_depth, DepthUnresolvedCont { on_if_false: Some(old(builder).block_num), after_if: Some(old(builder).block_num), after_then: None }),
        turned(final(builder).blocks@, old(builder).blocks@, old(builder).cur()),
//@endfn
//@fn gcfg on_else
//@contract
    requires old(builder).ok(), old(builder).current_depth.0 >= 1, old(builder).blocks@.len() < usize::MAX - 1, old(builder).unresolved_cont@.contains_key(old(builder).up()), old(builder).cont().on_if_false matches Some(a) && a.0 < old(builder).blocks@.len()
    ensures final(builder).ok(), final(builder).current_depth == old(builder).current_depth, final(builder).unresolved_jumps == old(builder).unresolved_jumps,
        final(builder).unresolved_cont@ == old(builder).unresolved_cont@.insert(old(builder).up(), DepthUnresolvedCont { on_if_false: None, after_if: None, after_then: Some(old(builder).block_num) }),
        turned(final(builder).blocks@, old(builder).blocks@, old(builder).cont().on_if_false->Some_0.0 as int),
//@endfn
//@fn gcfg on_scope_start
//@contract
    requires old(builder).ok(), old(builder).current_depth.0 < u32::MAX
    ensures final(builder).ok(), final(builder).current_depth.0 == old(builder).current_depth.0 + 1, final(builder).unresolved_jumps == old(builder).unresolved_jumps, final(builder).unresolved_cont == old(builder).unresolved_cont, final(builder).block_num == old(builder).block_num,
        appended(final(builder).blocks@, old(builder).blocks@, op),
//@endfn
//@fn gcfg on_scope_end
//@contract
    requires old(builder).leaving(), old(builder).unresolved_cont@.contains_key(old(builder).up()) ==> old(builder).cont().after_then is Some || old(builder).cont().after_if is Some,
        old(builder).unresolved_cont@.contains_key(old(builder).up()) ==> (old(builder).cont().after_then matches Some(a) ==> a.0 < old(builder).blocks@.len()) && (old(builder).cont().after_if matches Some(a) ==> a.0 < old(builder).blocks@.len()),
    ensures final(builder).left(old(builder), old(builder).pending_end())
//@endfn
//@fn gcfg on_general_op
//@contract
    requires old(builder).ok()
    ensures final(builder).ok(), *final(builder) == (CFGBuilder { blocks: final(builder).blocks, ..*old(builder) }), appended(final(builder).blocks@, old(builder).blocks@, op)
//@endfn
//@fn gcfg is_jump
//@contract
    ensures r == jumping(*op)
//@endfn
//@fn gcfg is_scope_start
//@contract
    ensures r == (*op is Block)
//@endfn
//@fn gcfg is_if
//@contract
    ensures r == (*op is If)
//@endfn
//@fn gcfg is_scope_end
//@contract
    ensures r == (*op is End)
//@endfn
//@fn gcfg is_else
//@contract
    ensures r == (*op is Else)
//@endfn
pub open spec fn kind(i: Instruction) -> OpKind {
    if jumping(i) { OpKind::Jump } else if i is If { OpKind::If } else if i is Else { OpKind::Else } else if i is Block { OpKind::ScopeStart } else if i is End { OpKind::ScopeEnd } else { OpKind::Other }
}
//@fn gcfg op_kind
//@contract
    ensures r == kind(*op.raw)
//@endfn
impl<'f> Function<'f> {
//@fn pfun Function::iter as=model_iter_ref
//@contract
    ensures r.ok(), r.offset == 0, r.code == self.code
//@endfn
}
impl<'f> BlockRef<'f> {
//@fn gblockr BlockRef::replace
//@local std :: mem :: replace ==> swap_out
//@contract
    ensures r == *old(self)
//@endfn
}
/// std::mem::replace
#[verifier::external_body]
pub fn swap_out<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }
pub open spec fn made(bs: Seq<Block>, os: Seq<BlockRef>) -> bool {
    &&& bs.len() == os.len()
    &&& forall|x: int| 0 <= x < bs.len() ==> (#[trigger] bs[x]).num.0 == x && bs[x].ops@ == ops(os, x)
    &&& forall|x: int, e: Edge| 0 <= x < bs.len() && #[trigger] out_edge(bs[x], e) ==> e.src().0 == x && 0 <= e.tgt().0 < bs.len()
    &&& forall|x: int, y: int| #[trigger] joined_blocks(bs, x, y) <==> arrow(os, x, y)
}
impl<'f> CFGBuilder<'f> {
//@fn gcfgb CFGBuilder::build
//@local let mut (\w+) = Vec :: with_capacity ==> let mut \1 : Vec<Block<'f>> = Vec :: with_capacity
//@contract
    requires self.ok()
    ensures made(r.blocks@, self.blocks@)
//@inv 0
    invariant
        self.ok(), __it0.v@ == self.blocks@, 0 <= __it0.i@ <= __it0.v@.len(), blocks@.len() == __it0.i@,
        forall|x: int| 0 <= x < blocks@.len() ==> (#[trigger] blocks@[x]).num.0 == x && blocks@[x].ops@ == ops(self.blocks@, x),
        forall|x: int, e: Edge| 0 <= x < blocks@.len() ==> (#[trigger] out_edge(blocks@[x], e) <==> outs(self.blocks@, x).contains(e)),
    ensures __it0.i@ == __it0.v@.len()
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost k = __it0.i@; let ghost bs = blocks@;
    proof { if k < self.blocks@.len() { assert(self.blocks@[k] is NotReady && self.blocks@[k].b().block_num.0 == k); } }
//@bot 0
    proof {
        assert forall|x: int, e: Edge| 0 <= x < blocks@.len() implies (#[trigger] out_edge(blocks@[x], e) <==> outs(self.blocks@, x).contains(e)) by { if x < k { assert(blocks@[x] == bs[x]); assert(out_edge(bs[x], e) <==> outs(self.blocks@, x).contains(e)); } }
    }
//@end
    proof {
        let bs = __result.blocks@; let os = self.blocks@;
        assert forall|x: int, e: Edge| 0 <= x < bs.len() && #[trigger] out_edge(bs[x], e) implies e.src().0 == x && 0 <= e.tgt().0 < bs.len() by {
            let i = choose|i: int| 0 <= i < outs(os, x).len() && outs(os, x)[i] == e; assert(edge_at(os, x, i) == e);
        }
        assert forall|x: int, y: int| #[trigger] joined_blocks(bs, x, y) <==> arrow(os, x, y) by {
            if joined_blocks(bs, x, y) { let e = choose|e: Edge| #[trigger] out_edge(bs[x], e) && e.tgt().0 == y; let i = choose|i: int| 0 <= i < outs(os, x).len() && outs(os, x)[i] == e; assert(edge_at(os, x, i) == e); }
            if arrow(os, x, y) { let i = choose|i: int| 0 <= i < outs(os, x).len() && (#[trigger] edge_at(os, x, i)).tgt().0 == y; assert(outs(os, x).contains(edge_at(os, x, i))); assert(out_edge(bs[x], edge_at(os, x, i))); }
        }
    }
//@endfn
}
pub proof fn start_inv(b: CFGBuilder, code: Seq<Instruction>)
    requires shaped(code), b.ok(), b.cur() == 1, b.current_depth.0 == 1, b.unresolved_jumps@ == Map::<Depth, Vec<UnresolvedJump>>::empty(), b.unresolved_cont@ == Map::<Depth, DepthUnresolvedCont>::empty(),
        ops(b.blocks@, 0) == Seq::<Op>::empty(), ops(b.blocks@, 1) == Seq::<Op>::empty(), forall|x: int, y: int| #[trigger] arrow(b.blocks@, x, y) <==> x == 0 && y == 1,
    ensures b.inv(code, 0, seq![1int])
{
    let blk = seq![1int];
    assert forall|x: int| 0 <= x < b.blocks@.len() implies holds(#[trigger] ops(b.blocks@, x), code, spots(code, blk, 0, x)) by {}
    assert forall|x: int, y: int| #[trigger] arrow(b.blocks@, x, y) <==> link(code, blk, 0, x, y) by {
        if link(code, blk, 0, x, y) && !(x == 0 && y == 1) { let (i, j) = choose|i: int, j: int| #[trigger] crosses(code, blk, 0, i, j, x, y); }
    }
    assert forall|d: Depth| #[trigger] cont_ok(b.unresolved_cont@, code, 0, blk, d) by { }
    assert forall|d: int, x: int| #[trigger] waiting(b.unresolved_jumps@, d, x) <==> owed(code, blk, 0, d, x) by {}
}
pub proof fn finish(bs: Seq<Block>, b: CFGBuilder, code: Seq<Instruction>, blk: Seq<int>)
    requires b.inv(code, code.len() as int, blk), made(bs, b.blocks@)
    ensures depicts(bs, code)
{
    let n = code.len() as int;
    assert forall|x: int| 0 <= x < bs.len() implies (#[trigger] bs[x]).num.0 == x && holds(bs[x].ops@, code, spots(code, blk, n, x)) by { assert(holds(ops(b.blocks@, x), code, spots(code, blk, n, x))); }
    assert forall|x: int, y: int| #[trigger] joined_blocks(bs, x, y) <==> link(code, blk, n, x, y) by { assert(arrow(b.blocks@, x, y) <==> link(code, blk, n, x, y)); }
    assert(drawn(bs, code, blk));
}
pub proof fn labels_shaped(code: Seq<Instruction>, k: int)
    requires shaped(code), 0 <= k < code.len(), jumping(code[k])
    ensures labels_in(code[k], scopes(code, k).len() as int)
{
    assert(shaped_at(code, k));
    assert forall|l: int| #[trigger] label_of(code[k], l) implies l < scopes(code, k).len() by {
        if code[k] is BrTable { let t = code[k]->BrTable_0; if l != t.default { let x = choose|x: int| 0 <= x < t.table@.len() && #[trigger] t.table@[x] == l; assert(in_range(code, k, t.table@[x])); } }
    }
}
//@fn gcfg build_func_cfg
//@contract
    requires shaped(func.code@)
    ensures depicts(r.blocks@, func.code@)
//@begin
    let ghost code = func.code@; let ghost mut blk = seq![1int];
//@before 0
    proof { start_inv(builder, code); }
//@inv 0
    invariant shaped(code), code == func.code@, __it0.ok(), __it0.code == func.code, builder.inv(code, __it0.offset as int, blk)
    ensures __it0.offset == code.len()
    decreases code.len() - __it0.offset
//@top 0
    let ghost k = __it0.offset as int; let ghost o = builder;
    proof { if k < code.len() { ready(builder, code, k, blk); assert(shaped_at(code, k)); if jumping(code[k]) { labels_shaped(code, k); } } }
//@bot 0
    proof {
        let i = code[k];
        if jumping(i) { next_jump(builder, o, code, k, blk); blk = blk.push(blk[k] + 1); }
        else if i is If { next_if(builder, o, code, k, blk); blk = blk.push(blk[k] + 1); }
        else if i is Else { next_else(builder, o, code, k, blk); blk = blk.push(blk[k] + 1); }
        else if i is End { next_end(builder, o, code, k, blk); blk = blk.push(after_end(o, blk, k)); }
        else { next_plain(builder, o, code, k, blk, op); blk = blk.push(blk[k]); }
    }
//@after 0
    proof { assert forall|bs: Seq<Block>| #[trigger] made(bs, builder.blocks@) implies depicts(bs, code) by { finish(bs, builder, code, blk); } }
//@endfn
}
fn main() {}
