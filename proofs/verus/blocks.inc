// ---- a function's control-flow graph
//@item-eq gcont enum:ContKind
//@item gcont struct:Cont
//@item gjump struct:Jump
//@item gedge enum:Edge
//@item gblock struct:Block
//@item gcfg struct:CFG
/// IndexSet<Edge>
#[verifier::external_body]
pub struct EdgeSet { _p: core::marker::PhantomData<L> }
impl View for EdgeSet { type V = Set<Edge>; uninterp spec fn view(&self) -> Set<Edge>; }
impl EdgeSet {
    #[verifier::external_body]
    pub fn new() -> (r: EdgeSet) ensures r@ == Set::<Edge>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, e: Edge) -> (r: bool) ensures final(self)@ == old(self)@.insert(e) { unimplemented!() }
    #[verifier::external_body]
    pub fn model_iter<'a>(&'a self) -> (r: VecIter<&'a Edge>)
        ensures r.i@ == 0, forall|i: int| 0 <= i < r.v@.len() ==> self@.contains(*(#[trigger] r.v@[i])), forall|e: Edge| self@.contains(e) ==> exists|i: int| 0 <= i < r.v@.len() && *(#[trigger] r.v@[i]) == e
    { unimplemented!() }
}
impl Edge {
    pub open spec fn src(&self) -> L { match self { Edge::Jump(j) => j.origin, Edge::Cont(c) => c.origin } }
    pub open spec fn tgt(&self) -> L { match self { Edge::Jump(j) => j.target, Edge::Cont(c) => c.target } }
//@fn gedge Edge::origin
//@contract
    ensures r == self.src()
//@endfn
//@fn gedge Edge::target
//@contract
    ensures r == self.tgt()
//@endfn
}
impl Cont {
//@fn gcont Cont::origin
//@contract
    ensures r == self.origin
//@endfn
//@fn gcont Cont::target
//@contract
    ensures r == self.target
//@endfn
}
impl Jump {
//@fn gjump Jump::origin
//@contract
    ensures r == self.origin
//@endfn
//@fn gjump Jump::target
//@contract
    ensures r == self.target
//@endfn
}
/// Where the instructions of block x are; blk[i]: the block of instruction i.
pub open spec fn spots(code: Seq<Instruction>, blk: Seq<int>, k: int, x: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else if blk[k - 1] == x && charged(code[k - 1]) { spots(code, blk, k - 1, x).push(k - 1) } else { spots(code, blk, k - 1, x) }
}
pub open spec fn holds(ops: Seq<Op>, code: Seq<Instruction>, at: Seq<int>) -> bool { ops.len() == at.len() && forall|i: int| 0 <= i < ops.len() ==> *(#[trigger] ops[i]).raw == code[at[i]] }
pub open spec fn crosses(code: Seq<Instruction>, blk: Seq<int>, k: int, i: int, j: int, x: int, y: int) -> bool { step(code, i, j) && j <= k && blk[i] == x && blk[j] == y && x != y }
/// Blocks x and y are joined by an edge: the code steps from the one to the other. (Block 0 is an empty one before the first.)
pub open spec fn link(code: Seq<Instruction>, blk: Seq<int>, k: int, x: int, y: int) -> bool { (x == 0 && y == 1) || exists|i: int, j: int| #[trigger] crosses(code, blk, k, i, j, x, y) }
/// The instructions up to k are in blocks, in order: within a block control can only go from one to the next, and nothing else leads there.
pub open spec fn within(code: Seq<Instruction>, blk: Seq<int>, i: int) -> bool {
    &&& forall|j: int| #[trigger] step(code, i, j) <==> j == i + 1
    &&& forall|a: int| #[trigger] step(code, a, i + 1) <==> a == i
}
pub open spec fn blocked(code: Seq<Instruction>, blk: Seq<int>, k: int) -> bool {
    &&& 0 <= k <= code.len() && blk.len() == k + 1 && blk[0] == 1
    &&& forall|i: int| 0 <= i < k ==> #[trigger] follows(code, blk, i)
}
pub open spec fn follows(code: Seq<Instruction>, blk: Seq<int>, i: int) -> bool { blk[i] <= blk[i + 1] <= blk[i] + 1 && (blk[i] == blk[i + 1] ==> within(code, blk, i)) }
pub open spec fn out_edge(b: Block, e: Edge) -> bool { b.outgoing_edges@.contains(e) }
pub open spec fn joined_blocks(bs: Seq<Block>, x: int, y: int) -> bool { 0 <= x < bs.len() && exists|e: Edge| #[trigger] out_edge(bs[x], e) && e.tgt().0 == y }
/// The blocks and edges are those of the code.
pub open spec fn drawn(bs: Seq<Block>, code: Seq<Instruction>, blk: Seq<int>) -> bool {
    let n = code.len() as int;
    &&& blocked(code, blk, n) && bs.len() == blk[n] + 1
    &&& forall|x: int| 0 <= x < bs.len() ==> (#[trigger] bs[x]).num.0 == x && holds(bs[x].ops@, code, spots(code, blk, n, x))
    &&& forall|x: int, e: Edge| 0 <= x < bs.len() && #[trigger] out_edge(bs[x], e) ==> e.src().0 == x && 0 <= e.tgt().0 < bs.len()
    &&& forall|x: int, y: int| #[trigger] joined_blocks(bs, x, y) <==> link(code, blk, n, x, y)
}
/// The blocks and edges are those of the code, in some division of it.
pub open spec fn depicts(bs: Seq<Block>, code: Seq<Instruction>) -> bool { exists|blk: Seq<int>| #[trigger] drawn(bs, code, blk) }
impl<'f> Block<'f> {
//@fn gblock Block::num
//@contract
    ensures r == self.num
//@endfn
//@fn gblock Block::outgoing_edges
//@contract
    ensures *r == self.outgoing_edges
//@endfn
}
impl<'f> CFG<'f> {
//@fn gcfg CFG::start
//@contract
    ensures r == L(0)
//@endfn
}
