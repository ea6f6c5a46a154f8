// ---- prices
//@item gfprice struct:FuncPrice
/// IndexMap<FuncIndex, usize>
#[verifier::external_body]
pub struct PriceMap { _p: core::marker::PhantomData<F> }
impl View for PriceMap { type V = Map<F, usize>; uninterp spec fn view(&self) -> Map<F, usize>; }
impl PriceMap {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: PriceMap) ensures r@ == Map::<F, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &F) -> (r: Option<&usize>) ensures r is Some == self@.contains_key(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: F, v: usize) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
impl FuncPrice {
    pub open spec fn of(&self) -> Map<F, usize> { self.inner@ }
//@fn gfprice FuncPrice::new
//@contract
    ensures r.of() == Map::<F, usize>::empty()
//@endfn
//@fn gfprice FuncPrice::with_capacity
//@local IndexMap :: ==> PriceMap ::
//@contract
    ensures r.of() == Map::<F, usize>::empty()
//@endfn
//@fn gfprice FuncPrice::set
//@contract
    ensures final(self).of() == old(self).of().insert(fn_index, price)
//@endfn
//@fn gfprice FuncPrice::get
//@contract
    requires self.of().contains_key(fn_index)
    ensures r == self.of()[fn_index]
//@endfn
}
/// dyn PriceResolver: any table of prices for instructions and imports.
#[verifier::external_body]
pub struct Resolver { _p: core::marker::PhantomData<F> }
impl Resolver {
    pub uninterp spec fn op(&self, i: Instruction) -> usize;
    pub uninterp spec fn import(&self, module: Seq<char>, name: Seq<char>) -> usize;
    #[verifier::external_body]
    pub fn op_price(&self, op: &Op) -> (r: usize) ensures r == self.op(*op.raw) { unimplemented!() }
    #[verifier::external_body]
    pub fn import_price(&self, import: (&str, &str)) -> (r: usize) ensures r == self.import(import.0@, import.1@) { unimplemented!() }
}
/// What an instruction costs: a call costs what the called function or import costs.
pub open spec fn price_of(res: Resolver, im: Map<F, (String, String)>, fp: Map<F, usize>, i: Instruction) -> int {
    match i {
        Instruction::Call(t) => if im.contains_key(fs(t)) { res.import(im[fs(t)].0@, im[fs(t)].1@) as int } else { fp[fs(t)] as int },
        _ => res.op(i) as int,
    }
}
pub open spec fn prices(res: Resolver, im: Map<F, (String, String)>, fp: Map<F, usize>) -> Prices { |i: Instruction| price_of(res, im, fp, i) }
/// The price of what instruction i calls is known.
pub open spec fn known(im: Map<F, (String, String)>, fp: Map<F, usize>, i: Instruction) -> bool { i matches Instruction::Call(t) ==> im.contains_key(fs(t)) || fp.contains_key(fs(t)) }
pub open spec fn all_known(im: Map<F, (String, String)>, fp: Map<F, usize>, code: Seq<Instruction>) -> bool { forall|k: int| 0 <= k < code.len() ==> known(im, fp, #[trigger] code[k]) }
