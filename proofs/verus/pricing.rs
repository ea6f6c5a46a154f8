use vstd::prelude::*;
verus! {
//@include iter.inc
//@include progsubs.inc
//@include pricesubs.inc
//@sub Rc < Resolver > ==> Resolver
//@sub < Self as ProgramVisitor > :: Output ==> FuncPrice
//@sub < Self as ProgramVisitor > :: Error ==> ProgramError
//@heap g : &mut Gr : run
//@include graph.inc
/// The labels of nodes here: the functions' indexes.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct L(pub u32);
/// Function indexes are labels of the call graph.
pub type F = L;
pub fn fi(n: u32) -> (r: F) ensures r == L(n) { L(n) }
pub open spec fn fs(n: u32) -> F { L(n) }
//@include program.inc
//@include calls.inc
//@include chains.inc
//@include flow.inc
//@include price.inc
//@item perr enum:ProgramError
//@item gpricing struct:ProgramPricing
#[verifier::external_body]
pub fn rt_panic<T>() -> (r: T) requires false { unimplemented!() }
pub fn rt_assert(b: bool) requires b {}
/// Proved in weight.rs.
#[verifier::external_body]
pub fn compute_func_price(program: &Program, func_index: F, resolver: &Resolver, func_price: &FuncPrice) -> (r: usize)
    requires program.functions@.contains_key(func_index), shaped(program.code(func_index)), all_known(program.imports.inner@, func_price.of(), program.code(func_index))
    ensures dearest(program.code(func_index), prices(*resolver, program.imports.inner@, func_price.of()), r as int)
{ unimplemented!() }
// ---- prices of all functions
/// What validation says of a program: functions are well nested and loop-free, calls are to functions of the program or imports, and there is no recursion.
pub open spec fn valid(p: Program) -> bool {
    &&& p.imports.dense() && !recursive(p)
    &&& forall|a: L| #[trigger] p.functions@.contains_key(a) ==> shaped(p.code(a))
    &&& forall|a: L, b: L| #[trigger] p.calls(a, b) ==> p.functions@.contains_key(b)
}
pub open spec fn priced_at(p: Program, res: Resolver, fp: Map<F, usize>, a: L) -> bool { fp.contains_key(a) && dearest(p.code(a), prices(res, p.imports.inner@, fp), fp[a] as int) }
/// Every function has a price: what its dearest execution costs, given the prices of the functions it calls.
pub open spec fn priced(p: Program, res: Resolver, fp: Map<F, usize>) -> bool { fp.dom() == p.functions@.dom() && forall|a: L| #[trigger] p.functions@.contains_key(a) ==> priced_at(p, res, fp, a) }
pub open spec fn agree(code: Seq<Instruction>, a: Prices, b: Prices) -> bool { forall|k: int| 0 <= k < code.len() ==> a(#[trigger] code[k]) == b(code[k]) }
proof fn cost_same(code: Seq<Instruction>, a: Prices, b: Prices, q: Seq<int>, i: int, j: int)
    requires agree(code, a, b), run(code, q, i, j)
    ensures cost(code, a, q) == cost(code, b, q)
    decreases q.len()
{
    if q.len() >= 2 {
        let r = q.drop_last();
        assert forall|x: int| 0 <= x < r.len() - 1 implies #[trigger] steps_at(code, r, x) by { assert(steps_at(code, q, x)); }
        assert(steps_at(code, q, q.len() - 2));
        let x = q[q.len() - 2];
        cost_same(code, a, b, r, i, x);
        assert(a(code[x]) == b(code[x]));
    }
}
proof fn dearest_same(code: Seq<Instruction>, a: Prices, b: Prices, t: int)
    requires agree(code, a, b), dearest(code, a, t)
    ensures dearest(code, b, t)
{
    let e = code.len() as int;
    assert forall|q: Seq<int>| #[trigger] run(code, q, 0, e) implies sat(cost(code, b, q)) <= t by { cost_same(code, a, b, q, 0, e); }
    let q = choose|q: Seq<int>| #[trigger] run(code, q, 0, e) && sat(cost(code, a, q)) == t;
    cost_same(code, a, b, q, 0, e);
}
/// A price for f doesn't change what those cost that don't call it.
proof fn agree_insert(p: Program, res: Resolver, fp: Map<F, usize>, f: L, v: usize, a: L)
    requires all_known(p.imports.inner@, fp, p.code(a)), !fp.contains_key(f)
    ensures agree(p.code(a), prices(res, p.imports.inner@, fp), prices(res, p.imports.inner@, fp.insert(f, v))), all_known(p.imports.inner@, fp.insert(f, v), p.code(a))
{
    let code = p.code(a); let im = p.imports.inner@;
    assert forall|k: int| 0 <= k < code.len() implies (prices(res, im, fp))(#[trigger] code[k]) == (prices(res, im, fp.insert(f, v)))(code[k]) by { assert(known(im, fp, code[k])); }
    assert forall|k: int| 0 <= k < code.len() implies known(im, fp.insert(f, v), #[trigger] code[k]) by { assert(known(im, fp, code[k])); }
}
pub open spec fn done(p: Program, res: Resolver, fp: Map<F, usize>, a: L) -> bool { priced_at(p, res, fp, a) && all_known(p.imports.inner@, fp, p.code(a)) }
/// The functions from k on in the order have their prices, the others don't.
pub open spec fn pricing(p: Program, res: Resolver, fp: Map<F, usize>, s: Seq<L>, k: int) -> bool {
    &&& 0 <= k <= s.len()
    &&& forall|j: int| k <= j < s.len() ==> done(p, res, fp, #[trigger] s[j])
    &&& forall|a: L| #[trigger] fp.contains_key(a) ==> exists|j: int| k <= j < s.len() && #[trigger] s[j] == a
}
proof fn callees_known(p: Program, n: Map<L, Node>, res: Resolver, fp: Map<F, usize>, s: Seq<L>, k: int)
    requires valid(p), call_arcs(p, n), wf(n), n.dom() == p.functions@.dom(), in_order(n, s), 1 <= k <= s.len(), pricing(p, res, fp, s, k)
    ensures all_known(p.imports.inner@, fp, p.code(s[k - 1])), p.functions@.contains_key(s[k - 1]), !fp.contains_key(s[k - 1])
{
    let f = s[k - 1]; let code = p.code(f); let im = p.imports.inner@;
    assert(s.to_set().contains(f));
    assert forall|i: int| 0 <= i < code.len() implies known(im, fp, #[trigger] code[i]) by {
        if code[i] is Call {
            let b = fs(code[i]->Call_0);
            if !im.contains_key(b) {
                assert(!p.imported(b));
                assert(p.call_at(f, i, b)); assert(p.calls(f, b)); assert(arc(n, f, b)); assert(s.to_set().contains(b));
                let j = choose|j: int| 0 <= j < s.len() && s[j] == b;
                assert(arc(n, f, s[j])); assert(before(s, f, j));
                let h = choose|h: int| 0 <= h < j && #[trigger] s[h] == f;
                assert(h == k - 1);
                assert(done(p, res, fp, s[j]));
            }
        }
    }
    if fp.contains_key(f) { let j = choose|j: int| k <= j < s.len() && #[trigger] s[j] == f; assert(false); }
}
proof fn price_set(p: Program, res: Resolver, fp: Map<F, usize>, s: Seq<L>, k: int, v: usize)
    requires 1 <= k, pricing(p, res, fp, s, k), all_known(p.imports.inner@, fp, p.code(s[k - 1])), !fp.contains_key(s[k - 1]), dearest(p.code(s[k - 1]), prices(res, p.imports.inner@, fp), v as int)
    ensures pricing(p, res, fp.insert(s[k - 1], v), s, k - 1)
{
    let f = s[k - 1]; let fq = fp.insert(f, v); let im = p.imports.inner@;
    assert forall|j: int| k - 1 <= j < s.len() implies done(p, res, fq, #[trigger] s[j]) by {
        if j >= k { assert(done(p, res, fp, s[j])); assert(s[j] != f); }
        agree_insert(p, res, fp, f, v, s[j]);
        dearest_same(p.code(s[j]), prices(res, im, fp), prices(res, im, fq), fq[s[j]] as int);
    }
    assert forall|a: L| #[trigger] fq.contains_key(a) implies exists|j: int| k - 1 <= j < s.len() && #[trigger] s[j] == a by {
        if a == f { assert(s[k - 1] == a); } else { let j = choose|j: int| k <= j < s.len() && #[trigger] s[j] == a; assert(s[j] == a); }
    }
}
proof fn all_priced(p: Program, n: Map<L, Node>, res: Resolver, fp: Map<F, usize>, s: Seq<L>)
    requires n.dom() == p.functions@.dom(), in_order(n, s), pricing(p, res, fp, s, 0)
    ensures priced(p, res, fp)
{
    assert forall|a: L| #[trigger] p.functions@.contains_key(a) implies priced_at(p, res, fp, a) by { assert(s.to_set().contains(a)); let j = choose|j: int| 0 <= j < s.len() && s[j] == a; assert(done(p, res, fp, s[j])); }
    assert forall|a: L| fp.dom().contains(a) implies p.functions@.dom().contains(a) by { assert(fp.contains_key(a)); let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == a; assert(s.to_set().contains(a)); }
    assert(fp.dom() =~= p.functions@.dom());
}
pub open spec fn nodes_seen(p: Program, n: Map<L, Node>, fns: Seq<L>, k: int) -> bool {
    &&& forall|l: L| #[trigger] n.contains_key(l) ==> p.functions@.contains_key(l)
    &&& forall|j: int| 0 <= j < k ==> n.contains_key(#[trigger] fns[j])
}
impl ProgramPricing {
    pub open spec fn ok(&self, n: Map<L, Node>) -> bool { of(self.builder.inner.nodes@, n) }
//@fn gpricing ProgramPricing::new
//@contract
    ensures r.builder.inner.nodes@ == Map::<L, NodeRef>::empty(), r.current_func is None, r.resolver == resolver
//@endfn
//@fn gpricing ProgramPricing::current_func
//@contract
    requires self.current_func is Some
    ensures r == self.current_func->Some_0
//@endfn
//@fn gpricing ProgramPricing::add_target heap
//@contract
    requires old(self).ok(old(g).nodes())
    ensures final(self).ok(final(g).nodes()), final(self).current_func == old(self).current_func, final(self).resolver == old(self).resolver,
        final(g).nodes().dom() == old(g).nodes().dom().insert(label), forall|x: L, y: L| #[trigger] arc(final(g).nodes(), x, y) <==> arc(old(g).nodes(), x, y),
//@endfn
//@fn gpricing ProgramPricing::add_call heap
//@contract
    requires old(self).ok(old(g).nodes())
    ensures final(self).ok(final(g).nodes()), final(self).current_func == old(self).current_func, final(self).resolver == old(self).resolver, joined(final(g).nodes(), old(g).nodes(), origin, target),
//@endfn
//@fn gpricing ProgramVisitor@ProgramPricing::on_start heap
//@local Self :: Error ==> ProgramError
//@contract
    ensures r is Ok, *final(self) == *old(self), *final(g) == *old(g)
//@endfn
//@fn gpricing ProgramVisitor@ProgramPricing::on_func_start heap
//@local Self :: Error ==> ProgramError
//@contract
    requires old(self).ok(old(g).nodes())
    ensures r is Ok, final(self).ok(final(g).nodes()), final(self).current_func == Some(fn_index), final(self).resolver == old(self).resolver,
        final(g).nodes().dom() == old(g).nodes().dom().insert(fn_index), forall|x: L, y: L| #[trigger] arc(final(g).nodes(), x, y) <==> arc(old(g).nodes(), x, y),
//@endfn
//@fn gpricing ProgramVisitor@ProgramPricing::on_func_end heap
//@local Self :: Error ==> ProgramError
//@contract
    requires old(self).ok(old(g).nodes())
    ensures r is Ok, final(self).ok(final(g).nodes()), *final(g) == *old(g), final(self).resolver == old(self).resolver,
//@endfn
//@fn gpricing ProgramVisitor@ProgramPricing::on_op heap
//@local Self :: Error ==> ProgramError
//@contract
    requires old(self).ok(old(g).nodes()), old(self).current_func is Some
    ensures r is Ok, final(self).ok(final(g).nodes()), final(self).current_func == old(self).current_func, final(self).resolver == old(self).resolver,
        ({ let f = old(self).current_func->Some_0; let t = L((*op.raw)->Call_0);
           if *op.raw is Call && !program.imported(t) { joined(final(g).nodes(), old(g).nodes(), f, t) } else { final(g).nodes() == old(g).nodes() } }),
//@endfn
//@fn gpricing ProgramVisitor@ProgramPricing::on_end heap
//@local Self :: Output ==> FuncPrice
//@local Self :: Error ==> ProgramError
//@local graph :: topological_sort \( (?:g , )?& call_graph \) ==> topological_sort(g, call_graph.deref())
//@local & \* (\w+)\.resolver ==> &\1.resolver
//@contract
    requires valid(*program), self.ok(old(g).nodes()), call_arcs(*program, old(g).nodes()), old(g).nodes().dom() == program.functions@.dom()
    ensures r matches Ok(fp) && priced(*program, self.resolver, fp.of())
//@begin
    proof { cycles_are_recursion(*program, g.nodes()); }
//@before 0
    let ghost (n, s) = (old(g).nodes(), sorted@);
    proof { assert(s.take(s.len() as int) =~= s); }
//@inv 0
    invariant valid(*program), call_arcs(*program, n), wf(n), n.dom() == program.functions@.dom(), in_order(n, s), this.resolver == self.resolver, sorted@.len() <= s.len(), sorted@ == s.take(sorted@.len() as int),
        pricing(*program, self.resolver, func_price.of(), s, sorted@.len() as int),
    ensures pricing(*program, self.resolver, func_price.of(), s, 0)
    decreases sorted@.len()
//@top 0
    let ghost k = sorted@.len() as int; let ghost fp = func_price.of();
    proof { if k > 0 { callees_known(*program, n, self.resolver, fp, s, k); assert(sorted@[k - 1] == s[k - 1]); assert(sorted@.drop_last() =~= s.take(k - 1)); } }
//@bot 0
    proof { price_set(*program, self.resolver, fp, s, k, price); }
//@after 0
    proof { all_priced(*program, n, self.resolver, func_price.of(), s); }
//@endfn
//@fn pvis ProgramVisitor::visit heap
//@local Self :: Output ==> FuncPrice
//@local Self :: Error ==> ProgramError
//@contract
    requires valid(*program), self.ok(old(g).nodes()), old(g).nodes() == Map::<L, Node>::empty()
    ensures r matches Ok(fp) && priced(*program, self.resolver, fp.of())
//@before 0
    let ghost fns = func_index@;
    proof {
        assert(fns.to_set() == program.functions@.dom());
        assert forall|j: int| 0 <= j < fns.len() implies program.functions@.contains_key(#[trigger] fns[j]) by { assert(fns.to_set().contains(fns[j])); }
    }
//@inv 0
    invariant
        valid(*program), this.resolver == self.resolver, __it0.v@.len() == fns.len(), 0 <= __it0.i@ <= fns.len(), forall|j: int| 0 <= j < fns.len() ==> *(#[trigger] __it0.v@[j]) == fns[j],
        fns.to_set() == program.functions@.dom(), forall|j: int| 0 <= j < fns.len() ==> program.functions@.contains_key(#[trigger] fns[j]),
        this.ok(g.nodes()), seen(*program, g.nodes(), fns, __it0.i@, 0), nodes_seen(*program, g.nodes(), fns, __it0.i@),
    ensures __it0.i@ == fns.len()
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost k = __it0.i@; let ghost na = g.nodes();
//@before 1
    proof { assert(nodes_seen(*program, g.nodes(), fns, k + 1)) by {
        assert forall|l: L| #[trigger] g.nodes().contains_key(l) implies program.functions@.contains_key(l) by { assert(na.dom().insert(fns[k]).contains(l)); }
        assert forall|j: int| 0 <= j < k + 1 implies g.nodes().contains_key(#[trigger] fns[j]) by { if j < k { assert(na.contains_key(fns[j])); } assert(na.dom().insert(fns[k]).contains(fns[j])); }
    } }
//@inv 1
    invariant
        valid(*program), this.resolver == self.resolver, __it0.i@ == k + 1, 0 <= k < fns.len(), fn_index == fns[k], program.functions@.contains_key(fns[k]),
        __it1.ok(), __it1.code@ == program.code(fns[k]),
        this.ok(g.nodes()), this.current_func == Some(fns[k]), seen(*program, g.nodes(), fns, k, __it1.offset as int), nodes_seen(*program, g.nodes(), fns, k + 1),
    ensures __it1.offset == program.code(fns[k]).len()
    decreases __it1.code@.len() - __it1.offset
//@top 1
    let ghost n0 = g.nodes(); let ghost o = __it1.offset as int;
//@bot 1
    proof {
        let n = g.nodes(); let i = program.code(fns[k])[o]; let t = L(i->Call_0);
        assert forall|x: L, y: L| #[trigger] arc(n, x, y) <==> arc(n0, x, y) || (x == fns[k] && program.call_at(fns[k], o, y)) by {}
        seen_op(*program, n0, n, fns, k, o);
        assert(nodes_seen(*program, n, fns, k + 1)) by { if i is Call && !program.imported(t) {
            assert(program.call_at(fns[k], o, t)); assert(program.calls(fns[k], t));
            assert forall|l: L| #[trigger] n.contains_key(l) implies program.functions@.contains_key(l) by { assert(n0.dom().insert(fns[k]).insert(t).contains(l)); }
            assert forall|j: int| 0 <= j < k + 1 implies n.contains_key(#[trigger] fns[j]) by { assert(n0.contains_key(fns[j])); assert(n0.dom().insert(fns[k]).insert(t).contains(fns[j])); }
        } }
    }
//@bot 0
    proof { seen_next(*program, g.nodes(), fns, k); }
//@after 0
    proof {
        seen_all(*program, g.nodes(), fns); cycles_are_recursion(*program, g.nodes());
        assert forall|l: L| program.functions@.dom().contains(l) implies g.nodes().dom().contains(l) by { assert(fns.to_set().contains(l)); let j = choose|j: int| 0 <= j < fns.len() && fns[j] == l; assert(g.nodes().contains_key(fns[j])); }
        assert forall|l: L| g.nodes().dom().contains(l) implies program.functions@.dom().contains(l) by { assert(g.nodes().contains_key(l)); }
        assert(g.nodes().dom() =~= program.functions@.dom());
    }
//@endfn
//@fn gpricing ProgramPricing::run heap
//@contract
    requires valid(*program), self.ok(old(g).nodes()), old(g).nodes() == Map::<L, Node>::empty()
    ensures r matches Ok(fp) && priced(*program, self.resolver, fp.of())
//@endfn
}
}
fn main() {}
