//@item gcall struct:CallGraph
//@item gcallb struct:CallGraphBuilder
impl CallGraphBuilder {
//@fn gcallb CallGraphBuilder::new
//@contract
    ensures r.inner.nodes@ == Map::<L, NodeRef>::empty()
//@endfn
//@fn gcallb CallGraphBuilder::add_target heap
//@contract
    requires of(old(self).inner.nodes@, old(g).nodes())
    ensures of(final(self).inner.nodes@, final(g).nodes()), final(g).nodes().dom() == old(g).nodes().dom().insert(label),
        forall|x: L, y: L| #[trigger] arc(final(g).nodes(), x, y) <==> arc(old(g).nodes(), x, y),
//@end
    proof { same_edges(old(g).nodes(), g.nodes()); }
//@endfn
//@fn gcallb CallGraphBuilder::add_call heap
//@contract
    requires of(old(self).inner.nodes@, old(g).nodes())
    ensures of(final(self).inner.nodes@, final(g).nodes()), joined(final(g).nodes(), old(g).nodes(), origin, target),
//@endfn
//@fn gcallb CallGraphBuilder::build
//@contract
    ensures r.inner.nodes == self.inner.nodes
//@endfn
}
impl CallGraph {
//@fn gcall Deref@CallGraph::deref
//@local Self :: Target ==> Graph
//@contract
    ensures *r == self.inner
//@endfn
//@fn gcall CallGraph::find_cycles heap
//@local graph :: try_topological_sort :: < L , \(\) , CallGraph(?: < L >)? > \( (?:g , )?self , ==> try_topological_sort(g, self.deref(), 
//@contract
    requires of(self.inner.nodes@, old(g).nodes())
    ensures r is NoCycles <==> !cyclic(old(g).nodes())
//@end
    proof { if result is Ok { order_excludes_cycles(old(g).nodes(), result->Ok_0@); } }
//@endfn
}
