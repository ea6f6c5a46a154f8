//@src gnode crates/host/gas/src/graph/node.rs
//@src gmod crates/host/gas/src/graph/mod.rs
//@src gbuild crates/host/gas/src/graph/builder.rs
//@src gsort crates/host/gas/src/graph/sort.rs
//@src gcycle crates/host/gas/src/graph/cycle.rs
//@src gweight crates/host/gas/src/graph/weight.rs
//@heap g : &mut Gr : source_nodes remove_node remove_edge get_or_create_mut add_outgoing add_incoming add_edge add_node outgoing incoming has_outgoing has_incoming is_source is_sink is_isolated as_ref as_mut label
//@heap g : &mut Gr : has_edges derive_cycle try_topological_sort topological_sort add_target add_call find_cycles
//@sub \b(as_ref|as_mut)\(g\)\.(label|is_\w+|has_\w+|incoming|outgoing)\(g\) ==> \1(g).\2()
//@sub :: < L , (D|\(\)) , (G|CallGraph < L >) > ==>
//@sub NodeRef < L , (D|NodeWeight < L >) > ==> NodeRef
//@sub Node < L , D > ==> Node
//@sub data : D \b ==> data: NodeWeight
//@sub let mut (__kept\d+) = Vec :: new \(\) ==> let mut \1: Vec<NodeRef> = Vec::new()
//@sub IndexSet < NodeRef > ==> RefSet
//@sub IndexMap < L , NodeRef > ==> LMap
//@sub IndexSet ==> RefSet
//@sub IndexMap ==> LMap
//@sub Graph < L , (D|\(\)) > ==> Graph
//@sub GraphBuilder < L , (D|\(\)) > ==> GraphBuilder
//@sub GraphCycles < L > ==> GraphCycles
//@sub (CallGraph|CallGraphBuilder) < (L|F|FuncIndex) > ==> \1
//@sub WeightedGraph < (L|BlockNum) > ==> Graph
//@sub (NodeWeight|WeightedPath) < (L|BlockNum) > ==> \1
//@sub & G \b ==> &Graph
//@sub where (G : std :: ops :: Deref < Target = Graph > , )?L : NodeLabel ,( D : NodeData ,)? ==>
//@sub (?<!Vec[ ])(?<!Option[ ])< L(, D)?(, G)? > ==>
//@sub (\w+)\.(values \(\)\.cloned \(\)|iter \(\)\.cloned \(\))\.collect \(\) ==> \1.to_vec()
global size_of usize == 8;
/// A counted reference to a node: the node of the graph with that label.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodeRef { pub l: L }
/// IndexSet<NodeRef>: equal are references to nodes of equal labels (PartialEq for NodeRef, below).
#[verifier::external_body]
pub struct RefSet { _p: core::marker::PhantomData<L> }
impl View for RefSet { type V = Set<L>; uninterp spec fn view(&self) -> Set<L>; }
impl RefSet {
    #[verifier::external_body]
    pub fn new() -> (r: RefSet) ensures r@ == Set::<L>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: NodeRef) -> (r: bool) ensures final(self)@ == old(self)@.insert(x.l), r == !old(self)@.contains(x.l) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, x: &NodeRef) -> (r: bool) ensures final(self)@ == old(self)@.remove(x.l), r == old(self)@.contains(x.l) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &NodeRef) -> (r: bool) ensures r == self@.contains(x.l) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<L>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<NodeRef>) ensures lists(r@, self@) { unimplemented!() }
}
/// Every element once.
pub open spec fn lists(v: Seq<NodeRef>, s: Set<L>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> s.contains((#[trigger] v[i]).l)
    &&& forall|x: L| s.contains(x) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).l == x
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).l != (#[trigger] v[j]).l
}
/// IndexMap<L, NodeRef>
#[verifier::external_body]
pub struct LMap { _p: core::marker::PhantomData<L> }
impl View for LMap { type V = Map<L, NodeRef>; uninterp spec fn view(&self) -> Map<L, NodeRef>; }
impl LMap {
    #[verifier::external_body]
    pub fn new() -> (r: LMap) ensures r@ == Map::<L, NodeRef>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &L) -> (r: Option<&NodeRef>) ensures r is Some == self@.contains_key(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: L, v: NodeRef) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    /// The values, one per key, in the order of insertion (left open here).
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<NodeRef>) ensures ident(self@) ==> lists(r@, self@.dom()) { unimplemented!() }
}
/// A key is mapped to the node having that label.
pub open spec fn ident(m: Map<L, NodeRef>) -> bool { forall|l: L| #[trigger] m.contains_key(l) ==> m[l].l == l }
/// The fields of a NodeWeight (they are `Cell`s).
pub struct W { pub label: Option<L>, pub weight: Option<usize>, pub dep_label: Option<L>, pub dep_weight: Option<usize> }
/// A NodeWeight within a node: the cells of the node with that label.
#[derive(Clone, Copy)]
pub struct NodeWeight { pub l: L }
//@item gnode struct:Node
//@item gmod struct:Graph
//@item gbuild struct:GraphBuilder
//@item gcycle enum:GraphCycles
/// The nodes behind the references of one graph and their cells.
#[verifier::external_body]
pub struct Gr { _p: core::marker::PhantomData<L> }
impl Gr {
    pub uninterp spec fn nodes(&self) -> Map<L, Node>;
    pub uninterp spec fn cells(&self) -> Map<L, W>;
    #[verifier::external_body]
    pub fn fresh() -> (r: Gr) ensures r.nodes() == Map::<L, Node>::empty(), r.cells() == Map::<L, W>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc(&mut self, l: L, w: W) -> (r: NodeWeight)
        requires !old(self).nodes().contains_key(l)
        ensures r.l == l, final(self).nodes() == old(self).nodes(), final(self).cells() == old(self).cells().insert(l, w)
    { unimplemented!() }
}
pub open spec fn no_cells() -> W { W { label: None, weight: None, dep_label: None, dep_weight: None } }
//@fn gweight Default@NodeWeight::default as=default_cells
//@local Self ==> W
//@local Cell :: new \(None\) ==> None
//@contract
    ensures r == no_cells()
//@endfn
impl NodeRef {
    /// Rc::new(RefCell::new(node))
    #[verifier::external_body]
    pub fn new(g: &mut Gr, node: Node) -> (r: NodeRef)
        requires !old(g).nodes().contains_key(node.label)
        ensures r.l == node.label, final(g).nodes() == old(g).nodes().insert(node.label, node), final(g).cells() == old(g).cells()
    { unimplemented!() }
    /// A read borrow: what is read through it is what the node holds.
    #[verifier::external_body]
    pub fn as_ref(&self, g: &mut Gr) -> (r: &Node)
        requires old(g).nodes().contains_key(self.l)
        ensures *r == old(g).nodes()[self.l], *final(g) == *old(g)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut<'a>(&self, g: &'a mut Gr) -> (r: &'a mut Node)
        requires old(g).nodes().contains_key(self.l)
        ensures *r == old(g).nodes()[self.l], final(g).nodes() == old(g).nodes().insert(self.l, *final(r)), final(g).cells() == old(g).cells()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: NodeRef) ensures r == *self { unimplemented!() }
}
#[verifier::external]
impl std::fmt::Debug for GraphCycles { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
pub open spec fn arc(n: Map<L, Node>, a: L, b: L) -> bool { n.contains_key(a) && n[a].outgoing@.contains(b) }
pub open spec fn free(n: Map<L, Node>, x: L) -> bool { n.contains_key(x) && forall|a: L| !arc(n, a, x) }
/// Both ends of every edge know of it; the edges are between nodes of the graph.
pub open spec fn wf(n: Map<L, Node>) -> bool {
    &&& forall|l: L| #[trigger] n.contains_key(l) ==> n[l].label == l && n[l].data.l == l
    &&& forall|a: L, b: L| #[trigger] arc(n, a, b) ==> n.contains_key(b)
    &&& forall|a: L, b: L| n.contains_key(b) ==> (#[trigger] n[b].incoming@.contains(a) <==> arc(n, a, b))
}
pub open spec fn of(m: Map<L, NodeRef>, n: Map<L, Node>) -> bool { ident(m) && m.dom() == n.dom() && wf(n) }
/// Same nodes, edges aside.
pub open spec fn same_nodes(n: Map<L, Node>, o: Map<L, Node>) -> bool { n.dom() == o.dom() }
pub proof fn empty_sources(n: Map<L, Node>, x: L)
    requires wf(n), n.contains_key(x)
    ensures free(n, x) <==> n[x].incoming@ == Set::<L>::empty()
{
    if free(n, x) { assert forall|a: L| !n[x].incoming@.contains(a) by { assert(!arc(n, a, x)); } assert(n[x].incoming@ =~= Set::<L>::empty()); }
    else { let a = choose|a: L| arc(n, a, x); assert(n[x].incoming@.contains(a)); }
}
pub proof fn empty_sinks(n: Map<L, Node>, x: L)
    requires n.contains_key(x)
    ensures (forall|b: L| !arc(n, x, b)) <==> n[x].outgoing@ == Set::<L>::empty()
{
    if forall|b: L| !arc(n, x, b) { assert forall|b: L| !n[x].outgoing@.contains(b) by { assert(!arc(n, x, b)); } assert(n[x].outgoing@ =~= Set::<L>::empty()); }
}

impl Node {
//@fn gnode Node::new heap
//@local D :: default \(\) ==> g.alloc(label, default_cells())
//@contract
    requires !old(g).nodes().contains_key(label)
    ensures r.label == label, r.data.l == label, r.incoming@ == Set::<L>::empty(), r.outgoing@ == Set::<L>::empty(),
        final(g).nodes() == old(g).nodes(), final(g).cells() == old(g).cells().insert(label, no_cells())
//@endfn
//@fn gnode Node::label
//@contract
    ensures r == self.label
//@endfn
//@fn gnode Node::data
//@local & D ==> &NodeWeight
//@contract
    ensures *r == self.data
//@endfn
//@fn gnode Node::incoming
//@contract
    ensures lists(r@, self.incoming@)
//@endfn
//@fn gnode Node::has_incoming
//@contract
    ensures r == (self.incoming@ != Set::<L>::empty())
//@begin
    proof { if self.incoming@.len() == 0 { self.incoming@.lemma_len0_is_empty(); } }
//@endfn
//@fn gnode Node::outgoing
//@contract
    ensures lists(r@, self.outgoing@)
//@endfn
//@fn gnode Node::has_outgoing
//@contract
    ensures r == (self.outgoing@ != Set::<L>::empty())
//@begin
    proof { if self.outgoing@.len() == 0 { self.outgoing@.lemma_len0_is_empty(); } }
//@endfn
//@fn gnode Node::add_out_edge
//@contract
    ensures *final(self) == (Node { outgoing: final(self).outgoing, ..*old(self) }), final(self).outgoing@ == old(self).outgoing@.insert(dest.l)
//@endfn
//@fn gnode Node::add_in_edge
//@contract
    ensures *final(self) == (Node { incoming: final(self).incoming, ..*old(self) }), final(self).incoming@ == old(self).incoming@.insert(source.l)
//@endfn
//@fn gnode Node::remove_out_edge
//@contract
    ensures *final(self) == (Node { outgoing: final(self).outgoing, ..*old(self) }), final(self).outgoing@ == old(self).outgoing@.remove(dest.l)
//@endfn
//@fn gnode Node::remove_in_edge
//@contract
    ensures *final(self) == (Node { incoming: final(self).incoming, ..*old(self) }), final(self).incoming@ == old(self).incoming@.remove(source.l)
//@endfn
//@fn gnode Node::is_sink
//@contract
    ensures r == (self.outgoing@ == Set::<L>::empty())
//@endfn
//@fn gnode Node::is_source
//@contract
    ensures r == (self.incoming@ == Set::<L>::empty())
//@endfn
//@fn gnode Node::is_isolated
//@local (is_sink|is_source)\(g\) ==> \1()
//@contract
    ensures r == (self.outgoing@ == Set::<L>::empty() && self.incoming@ == Set::<L>::empty())
//@endfn
}
impl NodeRef {
//@fn gnode NodeRef::label heap
//@contract
    requires old(g).nodes().contains_key(self.l)
    ensures *final(g) == *old(g), r == old(g).nodes()[self.l].label
//@endfn
//@fn gnode NodeRef::incoming heap
//@contract
    requires old(g).nodes().contains_key(self.l)
    ensures *final(g) == *old(g), lists(r@, old(g).nodes()[self.l].incoming@)
//@endfn
//@fn gnode NodeRef::has_incoming heap
//@contract
    requires old(g).nodes().contains_key(self.l)
    ensures *final(g) == *old(g), r == (old(g).nodes()[self.l].incoming@ != Set::<L>::empty())
//@endfn
//@fn gnode NodeRef::outgoing heap
//@contract
    requires old(g).nodes().contains_key(self.l)
    ensures *final(g) == *old(g), lists(r@, old(g).nodes()[self.l].outgoing@)
//@endfn
//@fn gnode NodeRef::has_outgoing heap
//@contract
    requires old(g).nodes().contains_key(self.l)
    ensures *final(g) == *old(g), r == (old(g).nodes()[self.l].outgoing@ != Set::<L>::empty())
//@endfn
//@fn gnode NodeRef::is_sink heap
//@contract
    requires old(g).nodes().contains_key(self.l)
    ensures *final(g) == *old(g), r == (old(g).nodes()[self.l].outgoing@ == Set::<L>::empty())
//@endfn
//@fn gnode NodeRef::is_source heap
//@contract
    requires old(g).nodes().contains_key(self.l)
    ensures *final(g) == *old(g), r == (old(g).nodes()[self.l].incoming@ == Set::<L>::empty())
//@endfn
//@fn gnode NodeRef::is_isolated heap
//@contract
    requires old(g).nodes().contains_key(self.l)
    ensures *final(g) == *old(g), r == (old(g).nodes()[self.l].outgoing@ == Set::<L>::empty() && old(g).nodes()[self.l].incoming@ == Set::<L>::empty())
//@endfn
/// Equal references are references to the same node.
//@fn gnode PartialEq@NodeRef::eq heap
//@local other : & Self ==> other: &NodeRef
//@local value\.eq \(& other\) ==> value == other
//@contract
    requires wf(old(g).nodes()), old(g).nodes().contains_key(self.l), old(g).nodes().contains_key(other.l)
    ensures *final(g) == *old(g), r == (self.l == other.l)
//@endfn
}
/// The graph without the edge a -> b.
pub open spec fn cut(n: Map<L, Node>, o: Map<L, Node>, a: L, b: L) -> bool {
    &&& wf(n) && n.dom() == o.dom()
    &&& forall|x: L, y: L| #[trigger] arc(n, x, y) <==> arc(o, x, y) && !(x == a && y == b)
}
pub open spec fn without(n: Map<L, Node>, o: Map<L, Node>, a: L) -> bool {
    &&& wf(n) && n.dom() == o.dom()
    &&& forall|x: L, y: L| #[trigger] arc(n, x, y) <==> arc(o, x, y) && x != a
}
pub open spec fn lists_sources(v: Seq<NodeRef>, n: Map<L, Node>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> free(n, (#[trigger] v[i]).l)
    &&& forall|x: L| free(n, x) ==> #[trigger] listed(v, v.len() as int, x)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).l != (#[trigger] v[j]).l
}
pub open spec fn derefs(v: Seq<&NodeRef>, w: Seq<NodeRef>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == w[i] }
pub proof fn listed_step(v: Seq<NodeRef>, k: int, y: L)
    requires 0 <= k < v.len()
    ensures listed(v, k + 1, y) <==> listed(v, k, y) || y == v[k].l
{
    if listed(v, k + 1, y) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] v[i]).l == y; if i < k { assert(v[i].l == y); } }
    if listed(v, k, y) { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i]).l == y; assert(v[i].l == y); }
}
pub proof fn listed_push(v: Seq<NodeRef>, x: NodeRef, y: L)
    ensures listed(v.push(x), v.len() as int + 1, y) <==> listed(v, v.len() as int, y) || y == x.l
{
    let w = v.push(x);
    listed_step(w, v.len() as int, y);
    if listed(w, v.len() as int, y) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] w[i]).l == y; assert(v[i].l == y); }
    if listed(v, v.len() as int, y) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).l == y; assert(w[i].l == y); }
}
pub open spec fn listed(v: Seq<NodeRef>, k: int, x: L) -> bool { exists|i: int| 0 <= i < k && (#[trigger] v[i]).l == x }
impl Graph {
//@fn gmod Graph::nodes
//@contract
    requires ident(self.nodes@)
    ensures lists(r@, self.nodes@.dom())
//@endfn
//@fn gmod Graph::node_count
//@contract
    ensures r == self.nodes@.dom().len()
//@endfn
//@fn gmod Graph::remove_edge heap
//@contract
    requires of(self.nodes@, old(g).nodes()), old(g).nodes().contains_key(__arg1.0), old(g).nodes().contains_key(__arg1.1)
    ensures cut(final(g).nodes(), old(g).nodes(), __arg1.0, __arg1.1), final(g).cells() == old(g).cells()
//@end
    proof { let n = g.nodes(); let o = old(g).nodes(); assert(n.dom() =~= o.dom());
        assert forall|x: L, y: L| #[trigger] arc(n, x, y) <==> arc(o, x, y) && !(x == __arg1.0 && y == __arg1.1) by { }
    }
//@endfn
//@fn gmod Graph::remove_node heap
//@contract
    requires of(self.nodes@, old(g).nodes()), old(g).nodes().contains_key(node.l)
    ensures without(final(g).nodes(), old(g).nodes(), node.l), final(g).cells() == old(g).cells()
//@inv 0
    invariant
        of(self.nodes@, old(g).nodes()), old(g).nodes().contains_key(node.l), lists(__it0.v@, old(g).nodes()[node.l].outgoing@), 0 <= __it0.i@ <= __it0.v@.len(),
        of(self.nodes@, g.nodes()), g.nodes().dom() == old(g).nodes().dom(), g.cells() == old(g).cells(),
        forall|x: L, y: L| #[trigger] arc(g.nodes(), x, y) <==> arc(old(g).nodes(), x, y) && !(x == node.l && listed(__it0.v@, __it0.i@, y)),
    ensures of(self.nodes@, g.nodes()), g.nodes().dom() == old(g).nodes().dom(), g.cells() == old(g).cells(),
        forall|x: L, y: L| #[trigger] arc(g.nodes(), x, y) <==> arc(old(g).nodes(), x, y) && x != node.l,
    decreases __it0.v@.len() - __it0.i@
//@top 0
    proof { let v = __it0.v@; let k = __it0.i@; if k < v.len() { assert(arc(old(g).nodes(), node.l, v[k].l));
        assert forall|y: L| #[trigger] listed(v, k + 1, y) <==> listed(v, k, y) || y == v[k].l by { listed_step(v, k, y); } }
        else { assert forall|y: L| arc(old(g).nodes(), node.l, y) implies listed(v, k, y) by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).l == y; assert(v[i].l == y); } } }
//@endfn
//@fn gmod Graph::source_nodes heap
//@contract
    requires of(self.nodes@, old(g).nodes())
    ensures *final(g) == *old(g), lists_sources(r@, old(g).nodes())
//@inv 0
    invariant
        *g == *old(g), of(self.nodes@, g.nodes()), 0 <= __it0.i@ <= __it0.v@.len(),
        derefs(__it0.v@, __src0@), lists(__src0@, self.nodes@.dom()),
        forall|i: int| 0 <= i < __kept0@.len() ==> free(g.nodes(), (#[trigger] __kept0@[i]).l) && listed(__src0@, __it0.i@, __kept0@[i].l),
        forall|i: int| 0 <= i < __it0.i@ && free(g.nodes(), (#[trigger] __src0@[i]).l) ==> listed(__kept0@, __kept0@.len() as int, __src0@[i].l),
        forall|i: int, j: int| 0 <= i < j < __kept0@.len() ==> (#[trigger] __kept0@[i]).l != (#[trigger] __kept0@[j]).l,
    ensures *g == *old(g), lists_sources(__kept0@, g.nodes())
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost kept = __kept0@; let ghost k = __it0.i@;
    proof { if k < __it0.v@.len() {
        empty_sources(g.nodes(), __src0@[k].l);
        assert forall|y: L| #[trigger] listed(__src0@, k + 1, y) <==> listed(__src0@, k, y) || y == __src0@[k].l by { listed_step(__src0@, k, y); }
        assert forall|y: L| #[trigger] listed(kept.push(__src0@[k]), kept.len() as int + 1, y) <==> listed(kept, kept.len() as int, y) || y == __src0@[k].l by { listed_push(kept, __src0@[k], y); }
        if listed(__src0@, k, __src0@[k].l) { let i = choose|i: int| 0 <= i < k && (#[trigger] __src0@[i]).l == __src0@[k].l; assert(false); }
    } else {
        assert forall|x: L| free(g.nodes(), x) implies #[trigger] listed(kept, kept.len() as int, x) by { let i = choose|i: int| 0 <= i < __src0@.len() && (#[trigger] __src0@[i]).l == x; assert(listed(kept, kept.len() as int, __src0@[i].l)); }
    } }
//@endfn
//@fn gmod Graph::try_get_node
//@contract
    ensures r == (if self.nodes@.contains_key(label) { Some(self.nodes@[label]) } else { None })
//@endfn
//@fn gmod Graph::get_node
//@contract
    requires self.nodes@.contains_key(label)
    ensures r == self.nodes@[label]
//@endfn
}
pub open spec fn outs(n: Map<L, Node>, l: L) -> Set<L> { if n.contains_key(l) { n[l].outgoing@ } else { Set::empty() } }
pub open spec fn ins(n: Map<L, Node>, l: L) -> Set<L> { if n.contains_key(l) { n[l].incoming@ } else { Set::empty() } }
pub open spec fn named(m: Map<L, NodeRef>, n: Map<L, Node>) -> bool { ident(m) && m.dom() == n.dom() && forall|l: L| #[trigger] n.contains_key(l) ==> n[l].label == l && n[l].data.l == l }
/// New nodes have empty cells, the others keep theirs.
pub open spec fn cells_grow(n: Map<L, Node>, c: Map<L, W>, o: Map<L, Node>, d: Map<L, W>) -> bool {
    &&& forall|l: L| #[trigger] o.contains_key(l) ==> n.contains_key(l) && c[l] == d[l] && (d.contains_key(l) ==> c.contains_key(l))
    &&& forall|l: L| #[trigger] n.contains_key(l) && !o.contains_key(l) ==> c.contains_key(l) && c[l] == no_cells()
}
/// The graph with the edge a -> b added.
pub open spec fn joined(n: Map<L, Node>, o: Map<L, Node>, a: L, b: L) -> bool {
    &&& wf(n) && n.dom() == o.dom().insert(a).insert(b)
    &&& forall|x: L, y: L| #[trigger] arc(n, x, y) <==> arc(o, x, y) || (x == a && y == b)
}
impl GraphBuilder {
//@fn gbuild GraphBuilder::new
//@contract
    ensures r.nodes@ == Map::<L, NodeRef>::empty()
//@endfn
//@fn gbuild GraphBuilder::build
//@contract
    ensures r.nodes == self.nodes
//@endfn
//@fn gbuild GraphBuilder::get_or_create_mut heap
//@local let entry = self\.nodes\.entry \(label\); let __result = entry\.or_insert_with \(\| \| \{ (let node = Node :: new \()label\); (NodeRef :: new \()node\) \}\)\.clone \(\) ==> let __result = match self.nodes.get(&label) { Some(__v) => __v.clone(), None => { \1g, label); let __v = \2g, node); self.nodes.insert(label, __v); __v.clone() } }
//@contract
    requires named(old(self).nodes@, old(g).nodes())
    ensures r.l == label, named(final(self).nodes@, final(g).nodes()), final(g).nodes().dom() == old(g).nodes().dom().insert(label),
        final(g).nodes().contains_key(label), final(g).nodes()[label].data.l == label, !old(g).nodes().contains_key(label) ==> final(g).cells().contains_key(label) && final(g).cells()[label] == no_cells(),
        forall|x: L| old(g).nodes().contains_key(x) ==> #[trigger] final(g).nodes()[x] == old(g).nodes()[x],
        !old(g).nodes().contains_key(label) ==> final(g).nodes()[label].incoming@ == Set::<L>::empty() && final(g).nodes()[label].outgoing@ == Set::<L>::empty(),
        cells_grow(final(g).nodes(), final(g).cells(), old(g).nodes(), old(g).cells()),
//@end
    proof { assert(self.nodes@.dom() =~= g.nodes().dom()); assert(g.nodes().dom() =~= old(g).nodes().dom().insert(label)); }
//@endfn
//@fn gbuild GraphBuilder::add_node heap
//@contract
    requires of(old(self).nodes@, old(g).nodes())
    ensures of(final(self).nodes@, final(g).nodes()), final(g).nodes().dom() == old(g).nodes().dom().insert(label),
        forall|x: L, y: L| #[trigger] arc(final(g).nodes(), x, y) <==> arc(old(g).nodes(), x, y),
        cells_grow(final(g).nodes(), final(g).cells(), old(g).nodes(), old(g).cells()),
//@end
    proof { same_edges(old(g).nodes(), g.nodes()); }
//@endfn
//@fn gbuild GraphBuilder::add_outgoing heap
//@contract
    requires named(old(self).nodes@, old(g).nodes())
    ensures named(final(self).nodes@, final(g).nodes()), final(g).nodes().dom() == old(g).nodes().dom().insert(source).insert(dest),
        forall|x: L| #[trigger] ins(final(g).nodes(), x) == ins(old(g).nodes(), x),
        forall|x: L| #[trigger] outs(final(g).nodes(), x) == (if x == source { outs(old(g).nodes(), x).insert(dest) } else { outs(old(g).nodes(), x) }),
        cells_grow(final(g).nodes(), final(g).cells(), old(g).nodes(), old(g).cells()),
//@begin
    let ghost (s, d) = (source, dest);
//@end
    proof { assert(g.nodes().dom() =~= self.nodes@.dom()); assert(g.nodes().dom() =~= old(g).nodes().dom().insert(s).insert(d));
        assert forall|l: L| #[trigger] g.nodes().contains_key(l) implies g.nodes()[l].label == l && g.nodes()[l].data.l == l by { assert(self.nodes@.contains_key(l)); } }
//@endfn
//@fn gbuild GraphBuilder::add_incoming heap
//@contract
    requires named(old(self).nodes@, old(g).nodes())
    ensures named(final(self).nodes@, final(g).nodes()), final(g).nodes().dom() == old(g).nodes().dom().insert(source).insert(dest),
        forall|x: L| #[trigger] outs(final(g).nodes(), x) == outs(old(g).nodes(), x),
        forall|x: L| #[trigger] ins(final(g).nodes(), x) == (if x == dest { ins(old(g).nodes(), x).insert(source) } else { ins(old(g).nodes(), x) }),
        cells_grow(final(g).nodes(), final(g).cells(), old(g).nodes(), old(g).cells()),
//@begin
    let ghost (s, d) = (source, dest);
//@end
    proof { assert(g.nodes().dom() =~= self.nodes@.dom()); assert(g.nodes().dom() =~= old(g).nodes().dom().insert(s).insert(d));
        assert forall|l: L| #[trigger] g.nodes().contains_key(l) implies g.nodes()[l].label == l && g.nodes()[l].data.l == l by { assert(self.nodes@.contains_key(l)); } }
//@endfn
//@fn gbuild GraphBuilder::add_edge heap
//@contract
    requires of(old(self).nodes@, old(g).nodes())
    ensures of(final(self).nodes@, final(g).nodes()), joined(final(g).nodes(), old(g).nodes(), source, dest),
        cells_grow(final(g).nodes(), final(g).cells(), old(g).nodes(), old(g).cells()),
//@end
    proof { let o = old(g).nodes(); let n = g.nodes();
        assert(n.dom() =~= o.dom().insert(source).insert(dest));
        assert forall|x: L, y: L| #[trigger] arc(n, x, y) <==> arc(o, x, y) || (x == source && y == dest) by { assert(outs(n, x).contains(y) <==> outs(o, x).contains(y) || (x == source && y == dest)); }
        assert forall|a: L, b: L| n.contains_key(b) implies (#[trigger] n[b].incoming@.contains(a) <==> arc(n, a, b)) by { assert(ins(n, b).contains(a) <==> ins(o, b).contains(a) || (a == source && b == dest)); if o.contains_key(b) { assert(o[b].incoming@.contains(a) <==> arc(o, a, b)); } else { assert(!arc(o, a, b)); } }
    }
//@endfn
}
proof fn same_edges(o: Map<L, Node>, n: Map<L, Node>)
    requires wf(o), forall|l: L| #[trigger] n.contains_key(l) ==> n[l].label == l && n[l].data.l == l, o.dom().subset_of(n.dom()),
        forall|x: L| #[trigger] ins(n, x) == ins(o, x), forall|x: L| #[trigger] outs(n, x) == outs(o, x)
    ensures wf(n), forall|x: L, y: L| #[trigger] arc(n, x, y) <==> arc(o, x, y)
{
    assert forall|x: L, y: L| #[trigger] arc(n, x, y) <==> arc(o, x, y) by { assert(outs(n, x) == outs(o, x)); }
    assert forall|a: L, b: L| n.contains_key(b) implies (#[trigger] n[b].incoming@.contains(a) <==> arc(n, a, b)) by { assert(ins(n, b) == ins(o, b)); if o.contains_key(b) { assert(o[b].incoming@.contains(a) <==> arc(o, a, b)); } else { assert(!arc(o, a, b)); } }
}

/// A way along the edges.
pub open spec fn way(n: Map<L, Node>, p: Seq<L>) -> bool { forall|i: int| 0 <= i < p.len() - 1 ==> arc(n, #[trigger] p[i], p[i + 1]) }
/// A way that comes back to where it started.
pub open spec fn cyclic(n: Map<L, Node>) -> bool { exists|p: Seq<L>| #[trigger] way(n, p) && p.len() >= 2 && p[0] == p[p.len() - 1] }
/// Every node once, each after those with an edge to it.
pub open spec fn in_order(n: Map<L, Node>, s: Seq<L>) -> bool { s.no_duplicates() && s.to_set() == n.dom() && preceded(n, s) }
pub open spec fn preceded(n: Map<L, Node>, s: Seq<L>) -> bool { forall|j: int, a: L| 0 <= j < s.len() && arc(n, a, #[trigger] s[j]) ==> #[trigger] before(s, a, j) }
pub open spec fn before(s: Seq<L>, a: L, j: int) -> bool { exists|i: int| 0 <= i < j && #[trigger] s[i] == a }
/// Where there is such an order there is no cycle.
pub proof fn order_excludes_cycles(n: Map<L, Node>, s: Seq<L>)
    requires in_order(n, s), wf(n)
    ensures !cyclic(n)
{
    if cyclic(n) {
        let p = choose|p: Seq<L>| #[trigger] way(n, p) && p.len() >= 2 && p[0] == p[p.len() - 1];
        assert(arc(n, p[0], p[1]));
        assert(n.dom().contains(p[0])); assert(s.to_set().contains(p[0]));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == p[0];
        let j = later(n, s, p, i, p.len() - 1);
        assert(s[i] == s[j] && i != j);
    }
}
/// A way from s[i] ends further on in the order.
proof fn later(n: Map<L, Node>, s: Seq<L>, p: Seq<L>, i: int, k: int) -> (j: int)
    requires in_order(n, s), wf(n), way(n, p), 1 <= k < p.len(), 0 <= i < s.len(), s[i] == p[0]
    ensures i < j < s.len(), s[j] == p[k]
    decreases k
{
    let h = if k == 1 { i } else { later(n, s, p, i, k - 1) };
    assert(arc(n, p[k - 1], p[k - 1 + 1]));
    assert(n.dom().contains(p[k])); assert(s.to_set().contains(p[k]));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == p[k];
    assert(arc(n, s[h], s[j]));
    assert(before(s, s[h], j));
    let q = choose|q: int| 0 <= q < j && #[trigger] s[q] == s[h];
    assert(q == h);
    j
}
pub open spec fn fed(n: Map<L, Node>, u: Set<L>, b: L) -> bool { exists|a: L| u.contains(a) && #[trigger] arc(n, a, b) }
/// A non-empty set of nodes each having a predecessor in the set: there is a cycle.
proof fn no_first(n: Map<L, Node>, u: Set<L>, x: L)
    requires u.contains(x), forall|b: L| u.contains(b) ==> #[trigger] fed(n, u, b)
    ensures cyclic(n)
{
    let p = back(n, u, x, u.len() + 1);
    if p.no_duplicates() {
        p.unique_seq_to_set();
        assert(p.to_set().subset_of(u));
        vstd::set_lib::lemma_len_subset(p.to_set(), u);
        assert(false);
    }
    let (i, j) = choose|i: int, j: int| 0 <= i < j < p.len() && p[i] == p[j];
    let c = p.subrange(i, j + 1);
    assert(way(n, c)) by { assert forall|k: int| 0 <= k < c.len() - 1 implies arc(n, #[trigger] c[k], c[k + 1]) by { assert(arc(n, p[i + k], p[i + k + 1])); } }
    assert(c.len() >= 2 && c[0] == c[c.len() - 1]);
}
proof fn back(n: Map<L, Node>, u: Set<L>, x: L, k: nat) -> (p: Seq<L>)
    requires u.contains(x), forall|b: L| u.contains(b) ==> #[trigger] fed(n, u, b), k >= 1
    ensures way(n, p), p.len() == k, forall|i: int| 0 <= i < p.len() ==> u.contains(#[trigger] p[i])
    decreases k
{
    if k == 1 { seq![x] } else {
        let q = back(n, u, x, (k - 1) as nat);
        assert(u.contains(q[0])); assert(fed(n, u, q[0]));
        let a = choose|a: L| u.contains(a) && #[trigger] arc(n, a, q[0]);
        let p = seq![a] + q;
        assert forall|i: int| 0 <= i < p.len() - 1 implies arc(n, #[trigger] p[i], p[i + 1]) by { if i > 0 { assert(arc(n, q[i - 1], q[i - 1 + 1])); } }
        p
    }
}
//@fn gsort has_edges heap
//@contract
    requires of(graph.nodes@, old(g).nodes())
    ensures *final(g) == *old(g), r == (exists|a: L, b: L| arc(old(g).nodes(), a, b))
//@inv 0
    invariant *g == *old(g), of(graph.nodes@, g.nodes()), 0 <= __it0.i@ <= __it0.v@.len(), derefs(__it0.v@, __src0@), lists(__src0@, graph.nodes@.dom()),
        __found0 ==> exists|a: L, b: L| arc(g.nodes(), a, b),
        !__found0 ==> forall|i: int| 0 <= i < __it0.i@ ==> isolated(g.nodes(), (#[trigger] __src0@[i]).l),
    ensures *g == *old(g), __found0 == exists|a: L, b: L| arc(g.nodes(), a, b)
    decreases __it0.v@.len() - __it0.i@
//@top 0
    proof { let k = __it0.i@; let n = g.nodes(); if k < __it0.v@.len() { let x = __src0@[k].l; empty_sources(n, x); empty_sinks(n, x);
            if !free(n, x) { let a = choose|a: L| arc(n, a, x); assert(arc(n, a, x)); } }
        else if !__found0 { assert forall|a: L, b: L| !arc(n, a, b) by { if arc(n, a, b) { let i = choose|i: int| 0 <= i < __src0@.len() && (#[trigger] __src0@[i]).l == a; assert(isolated(n, __src0@[i].l)); } } } }
//@endfn
pub open spec fn isolated(n: Map<L, Node>, x: L) -> bool { free(n, x) && forall|b: L| !arc(n, x, b) }
/// Any cycle it finds: only for reports.
#[verifier::external_body]
pub fn derive_cycle(g: &mut Gr, graph: &Graph, return_cycles: bool) -> (r: Option<Vec<L>>) ensures final(g).cells() == old(g).cells() { unimplemented!() }
#[verifier::external_body]
pub fn or_default(o: Option<Vec<L>>) -> (r: Vec<L>) { unimplemented!() }

pub open spec fn waits(q: Seq<NodeRef>, x: L) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).l == x }
/// The state of the sort: s is done, q is next.
pub open spec fn sorting(n: Map<L, Node>, n0: Map<L, Node>, s: Seq<L>, q: Seq<NodeRef>) -> bool {
    &&& s.no_duplicates() && preceded(n0, s)
    &&& forall|i: int| 0 <= i < s.len() ==> free(n, #[trigger] s[i])
    &&& forall|i: int| 0 <= i < q.len() ==> free(n, (#[trigger] q[i]).l) && !s.contains(q[i].l)
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).l != (#[trigger] q[j]).l
    &&& forall|x: L| #[trigger] free(n, x) ==> s.contains(x) || waits(q, x)
}
pub open spec fn left(n: Map<L, Node>, n0: Map<L, Node>, s: Seq<L>) -> bool { forall|x: L, y: L| #[trigger] arc(n, x, y) <==> arc(n0, x, y) && !s.contains(x) }
//@fn gsort try_topological_sort heap
//@local cycle\.unwrap_or_default \(\) ==> or_default(cycle)
//@contract
    requires of(graph.nodes@, old(g).nodes())
    ensures r matches Ok(s) ==> in_order(old(g).nodes(), s@), r is Err ==> cyclic(old(g).nodes()), r matches Err(c) ==> c is HasCycles,
//@before 0
    proof { assert(sorting(g.nodes(), old(g).nodes(), sorted@, queued@)) by { assert forall|x: L| #[trigger] free(g.nodes(), x) implies waits(queued@, x) by { assert(listed(queued@, queued@.len() as int, x)); } } }
//@inv 0
    invariant of(graph.nodes@, old(g).nodes()), of(graph.nodes@, g.nodes()), left(g.nodes(), old(g).nodes(), sorted@), sorting(g.nodes(), old(g).nodes(), sorted@, queued@),
    decreases old(g).nodes().dom().len() - sorted@.len()
//@top 0
    let ghost (n1, s1, q1) = (g.nodes(), sorted@, queued@); let ghost x = q1[q1.len() - 1].l;
    proof { s1.unique_seq_to_set(); assert(s1.to_set().subset_of(n1.dom()));
        assert(!s1.to_set().contains(x)); assert(s1.to_set().insert(x).subset_of(n1.dom())); vstd::set_lib::lemma_len_subset(s1.to_set().insert(x), n1.dom()); }
//@before 1
    proof { let s2 = s1.push(x); assert(sorted@ == s2); assert(n1 == g.nodes());
        assert(preceded(old(g).nodes(), s2)) by { assert forall|j: int, a: L| 0 <= j < s2.len() && arc(old(g).nodes(), a, #[trigger] s2[j]) implies #[trigger] before(s2, a, j) by {
            if j < s1.len() { assert(before(s1, a, j)); let i = choose|i: int| 0 <= i < j && #[trigger] s1[i] == a; assert(s2[i] == a); }
            else { assert(!arc(n1, a, x)); assert(s1.contains(a)); let i = choose|i: int| 0 <= i < s1.len() && s1[i] == a; assert(s2[i] == a); } } }
        assert forall|y: L| #[trigger] free(n1, y) implies s2.contains(y) || waits(queued@, y) by { if s1.contains(y) { let i = choose|i: int| 0 <= i < s1.len() && s1[i] == y; assert(s2[i] == y); } else { assert(waits(q1, y)); let i = choose|i: int| 0 <= i < q1.len() && (#[trigger] q1[i]).l == y; if i < q1.len() - 1 { assert(queued@[i].l == y); } else { assert(s2[s1.len() as int] == y); } } }
        assert(s2.no_duplicates());
        assert forall|i: int| 0 <= i < queued@.len() implies free(n1, (#[trigger] queued@[i]).l) && !s2.contains(queued@[i].l) by { assert(queued@[i] == q1[i]); }
        assert(sorting(n1, old(g).nodes(), s2, queued@));
    }
//@inv 1
    invariant of(graph.nodes@, old(g).nodes()), of(graph.nodes@, g.nodes()), of(graph.nodes@, n1), source.l == x, left(n1, old(g).nodes(), s1), n1.contains_key(x), free(n1, x),
        sorted@ == s1.push(x), lists(__it1.v@, n1[x].outgoing@), 0 <= __it1.i@ <= __it1.v@.len(),
        forall|a: L, b: L| #[trigger] arc(g.nodes(), a, b) <==> arc(n1, a, b) && !(a == x && listed(__it1.v@, __it1.i@, b)),
        sorting(g.nodes(), old(g).nodes(), sorted@, queued@),
    ensures of(graph.nodes@, g.nodes()), sorting(g.nodes(), old(g).nodes(), sorted@, queued@), left(g.nodes(), old(g).nodes(), sorted@), sorted@ == s1.push(x),
    decreases __it1.v@.len() - __it1.i@
//@top 1
    let ghost (n2, q2, k, v) = (g.nodes(), queued@, __it1.i@, __it1.v@);
    proof { if k < v.len() { assert(arc(n1, x, v[k].l)); assert forall|y: L| #[trigger] listed(v, k + 1, y) <==> listed(v, k, y) || y == v[k].l by { listed_step(v, k, y); }
            if listed(v, k, v[k].l) { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i]).l == v[k].l; assert(false); }
            assert(arc(n2, x, v[k].l)); assert(!free(n2, v[k].l)); }
        else { assert forall|y: L| arc(n1, x, y) implies listed(v, k, y) by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).l == y; assert(v[i].l == y); }
            assert(left(g.nodes(), old(g).nodes(), sorted@)) by { assert forall|a: L, b: L| #[trigger] arc(g.nodes(), a, b) <==> arc(old(g).nodes(), a, b) && !sorted@.contains(a) by { in_push(s1, x, a); } } } }
//@bot 1
    proof { let d = v[k].l; let n3 = g.nodes(); let q3 = queued@; empty_sources(n3, d);
        assert(cut(n3, n2, x, d));
        assert forall|y: L| free(n2, y) implies free(n3, y) by { assert forall|a: L| !arc(n3, a, y) by { assert(!arc(n2, a, y)); } }
        assert forall|y: L| y != d && free(n3, y) implies free(n2, y) by { assert forall|a: L| !arc(n2, a, y) by { assert(!arc(n3, a, y)); } }
        assert forall|y: L| #[trigger] free(n3, y) implies sorted@.contains(y) || waits(q3, y) by {
            if y == d { assert(q3[q2.len() as int].l == d); } else { assert(free(n2, y)); if !sorted@.contains(y) { assert(waits(q2, y)); let i = choose|i: int| 0 <= i < q2.len() && (#[trigger] q2[i]).l == y; assert(q3[i].l == y); } } }
        assert(!sorted@.contains(d)) by { if sorted@.contains(d) { let i = choose|i: int| 0 <= i < sorted@.len() && sorted@[i] == d; assert(free(n2, sorted@[i])); } }
        assert forall|i: int| 0 <= i < q3.len() implies free(n3, (#[trigger] q3[i]).l) && !sorted@.contains(q3[i].l) by { if i < q2.len() { assert(q3[i] == q2[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < q3.len() implies (#[trigger] q3[i]).l != (#[trigger] q3[j]).l by { assert(q3[i] == q2[i]); if j < q2.len() { assert(q3[j] == q2[j]); } else { assert(free(n2, q2[i].l)); } }
        assert(sorting(n3, old(g).nodes(), sorted@, q3));
    }
//@after 0
    proof { let (n, n0, s) = (g.nodes(), old(g).nodes(), sorted@);
        if exists|a: L, b: L| arc(n, a, b) {
            let (a0, b0) = choose|a: L, b: L| arc(n, a, b);
            let u = n0.dom().difference(s.to_set());
            assert forall|b: L| u.contains(b) implies #[trigger] fed(n0, u, b) by {
                assert(!s.contains(b)); assert(!free(n, b)); let a = choose|a: L| arc(n, a, b); assert(arc(n0, a, b) && u.contains(a)); }
            assert(arc(n0, a0, b0) && !s.contains(a0) && u.contains(a0));
            no_first(n0, u, a0);
        } else {
            assert forall|x: L| n0.dom().contains(x) implies s.to_set().contains(x) by { assert(free(n, x)); }
            assert forall|x: L| s.to_set().contains(x) implies n0.dom().contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(free(n, s[i])); }
            assert(s.to_set() =~= n0.dom());
        }
    }
//@endfn
proof fn in_push(s: Seq<L>, x: L, a: L) ensures s.push(x).contains(a) <==> s.contains(a) || a == x
{ let t = s.push(x); if s.contains(a) { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(t[i] == a); } if a == x { assert(t[s.len() as int] == a); } }
//@fn gsort topological_sort heap
//@contract
    requires of(graph.nodes@, old(g).nodes()), !cyclic(old(g).nodes())
    ensures in_order(old(g).nodes(), r@)
//@endfn
