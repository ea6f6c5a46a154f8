use vstd::prelude::*;
use core::cmp::Ordering;
//@src rt crates/host/runtime/src/runtime/runtime.rs
//@src env crates/host/runtime/src/func_env.rs
//@src tank crates/host/runtime/src/runtime/gas_tank.rs
//@src call crates/host/runtime/src/runtime/call.rs
//@src v_storage crates/host/runtime/src/vmcalls/storage.rs
//@src v_transfer crates/host/runtime/src/vmcalls/transfer.rs
//@src v_alloc crates/host/runtime/src/vmcalls/alloc.rs
//@src v_ret crates/host/runtime/src/vmcalls/returndata.rs
//@src v_log crates/host/runtime/src/vmcalls/logs.rs
//@src v_cd crates/host/runtime/src/vmcalls/calldata.rs
//@src rc_call crates/host/types/src/receipt/call.rs
//@src rc_spawn crates/host/types/src/receipt/spawn.rs
//@src rc_deploy crates/host/types/src/receipt/deploy.rs
//@src gas crates/host/types/src/gas/mod.rs
//@src gaslib crates/host/gas/src/lib.rs
//@src err crates/host/types/src/error.rs
//@src out crates/host/runtime/src/runtime/outcome.rs
//@src fun crates/host/runtime/src/runtime/function.rs
//@src tmpl crates/host/types/src/template/mod.rs
//@only crates/host/runtime/src/vmcalls/mod.rs func ! \(store , env , (\w+)\) : static_alloc calldata_offset calldata_len set_returndata get32 set32 get64 set64 load160 store160 log svm_transfer
//@heap g : &mut Db : rt_assert rt_panic or_panic load balance counter template_addr set_balance set_var_i32 set_var_i64 set_var_bytes get_var_i64 get_var_i32 get_var_array checkpoint commit rollback rewind
//@heap g : &mut Db : storage storage_mut read_addr read_memory_bytes store load_n set_returndata memory get_account create_account save_pending_changes drop_impl
//@heap g : &mut Db : exec_call exec run call_with_alloc call_alloc wasmer_call run_program func set_memory set_calldata assert_no_returndata commit_changes into_spawn_receipt outcome_to_receipt take_returndata read_memory allocated_memory calldata
//@heap g : &mut Db : account_template load_template sections create build_call call_ctor check_gas_for_func
//@sub \.unwrap \(\) ==> .or_panic(g)
//@sub \.expect \([^()]*\) ==> .or_panic(g)
//@sub (\w+)\.borrow \(\) ==> (&\1.inner)
//@sub (\w+)\.borrow_mut \(\) ==> (&mut \1.inner)
//@sub (\w*env) : & FuncEnv ==> \1: &mut FuncEnv
//@sub wasmer :: Function ==> WFunc
//@sub wasmer :: (Val|Store|ImportObject|Exports) ==> \1
//@sub & \[Val\] ==> &Vec<Val>
//@sub Box < \[Val\] > ==> Vec<Val>
//@sub :: < (\(\)|Args) , (\(\)|Rets)(, _ , _)? > ==>
//@sub :: < u32 , u32 > ==>
//@sub Function < Args , Rets > ==> Function
//@sub Function < ('\s*i) , Args , Rets > ==> Function<\1>
//@sub < '\s*i , Args , Rets > ==> <'i>
//@sub < '\s*a , Args , Rets > ==> <'a>
//@sub < Args , Rets(, F , R)? > ==>
//@sub where Args : WasmTypeList , Rets : WasmTypeList , (F : Fn .*? -> R , )? ==>
//@sub HashSet ==> Touched
//@sub Arc < (\w+) > ==> \1
//@sub Touched < Address > ==> Touched
//@sub \berr :: (\w+) \( ==> err_\1(
//@sub svm_(types|gas|codec) :: (transaction :: )? ==>
//@sub & \[\] ==> &no_params()
//@sub std :: u64 :: MAX ==> u64::MAX
//@sub std :: mem :: take \(& mut self\.(\w+)\) ==> take_vec(&mut self.\1)
//@sub rt_panic\(g\); ==> rt_panic::<()>(g);
//@sub std :: result :: Result ==> core::result::Result
//@sub svm_state :: StorageResult ==> StorageResult
verus! {
global size_of usize == 8;
// Which properties' clauses are asked for in this run.
pub spec const COINS: bool = /*?coins*/true;
pub spec const TRACE: bool = /*?trace*/true;
pub spec const MODE: bool = /*?mode*/true;
pub spec const CTOR: bool = /*?ctor*/true;
pub spec const GAS: bool = /*?gas*/true;
// ---------------------------------------------------------------- the world behind the handles
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Address(pub u128, pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TemplateAddr(pub u128, pub u32);
pub ghost struct Acct { pub balance: u64, pub counter: u128, pub template: TemplateAddr, pub vars: Map<u32, Seq<u8>>, pub name: Seq<char> }
pub ghost struct St { pub acc: Map<Address, Acct>, pub tpl: Map<TemplateAddr, Template> }
/// The database behind the shared GlobalState handle: current contents, the contents saved last, the committed layers;
/// and, for panics, what the running operation started from and whether a guard will roll back; and
/// the program functions run so far, with the access mode each had.
pub struct Db { pub cur: Ghost<St>, pub saved: Ghost<St>, pub hist: Ghost<Seq<St>>, pub base: Ghost<St>, pub base_hist: Ghost<Seq<St>>, pub guarded: Ghost<bool>,
    pub ran: Ghost<Seq<(Seq<char>, AccessMode)>> }
impl Db {
    /// If the operation panics here, it leaves nothing behind.
    pub open spec fn pk(&self) -> bool {
        TRACE ==> self.hist@ == self.base_hist@ && (if self.guarded@ { self.saved@ == self.base@ } else { self.cur@ == self.base@ })
    }
    /// Only the current contents may differ.
    pub open spec fn frame(&self, o: Db) -> bool { *self == (Db { cur: self.cur, ..o }) }
    /// ... and the functions run.
    pub open spec fn frame_run(&self, o: Db) -> bool { *self == (Db { cur: self.cur, ran: self.ran, ..o }) }
    /// Committed as a new layer.
    pub open spec fn committed(&self, o: Db) -> bool { *self == (Db { saved: o.cur, hist: self.hist, ..o }) && self.hist@ == o.hist@.push(o.cur@) }
    pub open spec fn has(&self, a: Address) -> bool { self.cur@.acc.contains_key(a) }
    pub open spec fn at(&self, a: Address) -> Acct { self.cur@.acc[a] }
}
pub open spec fn put(s: St, a: Address, x: Acct) -> St { St { acc: s.acc.insert(a, x), ..s } }
pub open spec fn with_balance(x: Acct, b: u64) -> Acct { Acct { balance: b, ..x } }
pub open spec fn supply(m: Map<Address, Acct>) -> int decreases m.dom().len() {
    if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); m[k].balance + supply(m.remove(k)) }
}
proof fn supply_remove(m: Map<Address, Acct>, k: Address)
    requires m.contains_key(k)
    ensures supply(m) == m[k].balance + supply(m.remove(k))
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().len() > 0) by { assert(m.dom().contains(k)); if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); } }
    assert(m.dom().contains(c));
    if c != k {
        supply_remove(m.remove(c), k);
        supply_remove(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
proof fn supply_insert(m: Map<Address, Acct>, k: Address, x: Acct)
    requires m.contains_key(k)
    ensures supply(m.insert(k, x)) == supply(m) - m[k].balance + x.balance
{
    supply_remove(m, k);
    supply_remove(m.insert(k, x), k);
    assert(m.insert(k, x).remove(k) =~= m.remove(k));
}
/// What a program running for `target` may do to the state: no account appears or vanishes, no other account's variables, counter, name,
/// template change and none loses coins, the supply stays.
pub open spec fn step(s: St, t: St, target: Address) -> bool {
    &&& t.tpl == s.tpl
    &&& t.acc.dom() == s.acc.dom()
    &&& supply(t.acc) == supply(s.acc)
    &&& forall|a: Address| s.acc.contains_key(a) && a != target ==> (#[trigger] t.acc[a]).balance >= s.acc[a].balance && t.acc[a] == with_balance(s.acc[a], t.acc[a].balance)
    &&& s.acc.contains_key(target) ==> t.acc[target] == (Acct { balance: t.acc[target].balance, vars: t.acc[target].vars, ..s.acc[target] })
}
/// Any number of steps is a step.
proof fn step_trans(s: St, t: St, u: St, target: Address)
    requires step(s, t, target), step(t, u, target)
    ensures step(s, u, target), step(s, s, target)
{
    assert forall|a: Address| s.acc.contains_key(a) && a != target implies (#[trigger] u.acc[a]).balance >= s.acc[a].balance && u.acc[a] == with_balance(s.acc[a], u.acc[a].balance) by {
        assert(t.acc.dom().contains(a)); assert(t.acc[a].balance >= s.acc[a].balance);
    }
}
proof fn step_transfer(s: St, src: Address, dst: Address, amount: int)
    requires s.acc.contains_key(src), s.acc.contains_key(dst), src != dst, 0 <= amount <= s.acc[src].balance, s.acc[dst].balance + amount <= u64::MAX
    ensures step(s, moved(s, src, dst, amount), src), supply(moved(s, src, dst, amount).acc) == supply(s.acc)
{
    let x = with_balance(s.acc[src], (s.acc[src].balance - amount) as u64);
    let y = with_balance(s.acc[dst], (s.acc[dst].balance + amount) as u64);
    supply_insert(s.acc, src, x);
    supply_insert(s.acc.insert(src, x), dst, y);
    assert(s.acc.insert(src, x).insert(dst, y).dom() =~= s.acc.dom());
}
/// A transfer and nothing else.
pub open spec fn moved(s: St, src: Address, dst: Address, amount: int) -> St {
    put(put(s, src, with_balance(s.acc[src], (s.acc[src].balance - amount) as u64)), dst, with_balance(s.acc[dst], (s.acc[dst].balance + amount) as u64))
}

// ---------------------------------------------------------------- types (svm_types)
//@include iter.inc
/// A stored template: what matters here is which functions it lists as constructors, and its code.
#[verifier::external_body]
pub struct Template { x: u8 }
impl Template {
    pub uninterp spec fn ctor_list(&self) -> Seq<String>;
    pub open spec fn lists(&self, f: Seq<char>) -> bool { exists|i: int| 0 <= i < self.ctor_list().len() && #[trigger] self.ctor_list()[i]@ == f }
    #[verifier::external_body]
    pub fn ctors(&self) -> (r: &[String]) ensures r@ == self.ctor_list() { unimplemented!() }

//@fn tmpl Template::is_ctor
//@contract
    ensures CTOR || GAS ==> r == self.lists(func_name@)
//@inv 0
    invariant 0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == self.ctor_list().len(), forall|i: int| 0 <= i < __it0.v@.len() ==> *(#[trigger] __it0.v@[i]) == self.ctor_list()[i],
        __found0 == exists|i: int| 0 <= i < __it0.i@ && #[trigger] self.ctor_list()[i]@ == func_name@,
    ensures __found0 == exists|i: int| 0 <= i < self.ctor_list().len() && #[trigger] self.ctor_list()[i]@ == func_name@,
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost j = __it0.i@;
    let ghost f0 = __found0;
//@bot 0
    proof {
        let hit = self.ctor_list()[j]@ == func_name@;
        assert(__found0 == (f0 || hit));
        if f0 { let w = choose|i: int| 0 <= i < j && #[trigger] self.ctor_list()[i]@ == func_name@; assert(0 <= w < j + 1 && self.ctor_list()[w]@ == func_name@); }
    }
//@endfn
}

// ---------------------------------------------------------------- panics
#[verifier::external_body]
pub fn rt_panic<T>(g: &mut Db) -> T requires old(g).pk() ensures false { panic!() }
/// assert!: when it fails, the operation ends there and must leave nothing behind.
#[verifier::external_body]
pub fn rt_assert(g: &mut Db, b: bool) requires old(g).pk() ensures b, *final(g) == *old(g) { assert!(b); }
pub trait OrPanic<T>: Sized {
    spec fn ok(&self) -> bool;
    spec fn val(&self) -> T;
    fn or_panic(self, g: &Db) -> (r: T) requires self.ok() || g.pk() ensures self.ok(), r == self.val();
}
impl<T> OrPanic<T> for Option<T> {
    open spec fn ok(&self) -> bool { self is Some }
    open spec fn val(&self) -> T { self->Some_0 }
    #[verifier::external_body]
    fn or_panic(self, g: &Db) -> (r: T) { unimplemented!() }
}
impl<T, E> OrPanic<T> for core::result::Result<T, E> {
    open spec fn ok(&self) -> bool { self is Ok }
    open spec fn val(&self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn or_panic(self, g: &Db) -> (r: T) { unimplemented!() }
}

// ---------------------------------------------------------------- svm_state, by the contracts of storage.rs and account.rs
pub struct StorageError;
pub type StorageResult<T> = core::result::Result<T, StorageError>;
pub struct State(pub u128, pub u128);
pub struct GlobalState { pub x: u8 }
impl GlobalState {
    #[verifier::external_body]
    pub fn clone(&self) -> GlobalState { unimplemented!() }
    #[verifier::external_body]
    pub fn checkpoint(&self, g: &mut Db) -> (r: StorageResult<()>)
        ensures r is Ok, *final(g) == (Db { saved: old(g).cur, ..*old(g) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rollback(&self, g: &mut Db) -> (r: StorageResult<()>)
        ensures r is Ok, *final(g) == (Db { cur: old(g).saved, ..*old(g) })
    { unimplemented!() }
    /// Refused while unsaved writes exist.
    #[verifier::external_body]
    pub fn commit(&self, g: &mut Db) -> (r: StorageResult<(Layer, State)>)
        ensures r is Ok ==> old(g).cur@ == old(g).saved@ && final(g).committed(*old(g)), r is Err ==> *final(g) == *old(g)
            , old(g).cur@ == old(g).saved@ ==> r is Ok
    { unimplemented!() }
}
pub struct Layer(pub u64);
pub struct AccountStorage { pub gs: GlobalState, pub address: Address }
pub uninterp spec fn layout_ok(s: St, a: Address, var_id: u32) -> bool;
impl AccountStorage {
    #[verifier::external_body]
    pub fn load(g: &Db, gs: GlobalState, address: &Address) -> (r: StorageResult<AccountStorage>)
        ensures r is Ok == g.has(*address), r matches Ok(s) ==> s.address == *address
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create(g: &mut Db, gs: GlobalState, address: &Address, name: String, template_addr: TemplateAddr, balance: u64, counter: u128) -> (r: StorageResult<AccountStorage>)
        ensures final(g).frame(*old(g)), r is Err ==> *final(g) == *old(g), old(g).cur@.tpl.contains_key(template_addr) ==> r is Ok,
            r matches Ok(s) ==> s.address == *address && exists|x: Acct| final(g).cur@ == put(old(g).cur@, *address, x) && #[trigger] x.balance == balance && x.counter == counter && x.template == template_addr
    { unimplemented!() }
    #[verifier::external_body]
    pub fn balance(&self, g: &Db) -> (r: StorageResult<u64>) ensures r is Ok == g.has(self.address), r matches Ok(b) ==> b == g.at(self.address).balance { unimplemented!() }
    #[verifier::external_body]
    pub fn counter(&self, g: &Db) -> (r: StorageResult<u128>) ensures r is Ok == g.has(self.address), r matches Ok(b) ==> b == g.at(self.address).counter { unimplemented!() }
    #[verifier::external_body]
    pub fn template_addr(&self, g: &Db) -> (r: StorageResult<TemplateAddr>) ensures r is Ok == g.has(self.address), r matches Ok(b) ==> b == g.at(self.address).template { unimplemented!() }
    #[verifier::external_body]
    pub fn set_balance(&self, g: &mut Db, balance: u64) -> (r: StorageResult<()>)
        ensures final(g).frame(*old(g)), r is Ok == old(g).has(self.address), r is Err ==> *final(g) == *old(g),
            r is Ok ==> final(g).cur@ == put(old(g).cur@, self.address, with_balance(old(g).at(self.address), balance))
    { unimplemented!() }
    /// set_var_*: the variables of this account may change, nothing else does; they panic on an unknown variable before writing.
    #[verifier::external_body]
    pub fn set_var_bytes(&self, g: &mut Db, var_id: u32, value: &[u8]) -> (r: StorageResult<()>)
        requires old(g).pk()
        ensures final(g).frame(*old(g)), vars_only(old(g).cur@, final(g).cur@, self.address)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_var_i32(&self, g: &mut Db, var_id: u32, value: i32) -> (r: StorageResult<()>)
        requires old(g).pk()
        ensures final(g).frame(*old(g)), vars_only(old(g).cur@, final(g).cur@, self.address)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_var_i64(&self, g: &mut Db, var_id: u32, value: i64) -> (r: StorageResult<()>)
        requires old(g).pk()
        ensures final(g).frame(*old(g)), vars_only(old(g).cur@, final(g).cur@, self.address)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_var_i64(&self, g: &Db, var_id: u32) -> (r: StorageResult<i64>) requires g.pk() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_var_i32(&self, g: &Db, var_id: u32) -> (r: StorageResult<i32>) requires g.pk() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_var_array<const N: usize>(&self, g: &Db, var_id: u32) -> (r: StorageResult<[u8; N]>) requires g.pk() { unimplemented!() }
}
pub open spec fn vars_only(s: St, t: St, a: Address) -> bool {
    t == s || s.acc.contains_key(a) && exists|v: Map<u32, Seq<u8>>| t == put(s, a, #[trigger] with_vars(s.acc[a], v))
}
pub open spec fn with_vars(x: Acct, v: Map<u32, Seq<u8>>) -> Acct { Acct { vars: v, ..x } }
proof fn step_vars(s: St, t: St, a: Address)
    requires vars_only(s, t, a)
    ensures step(s, t, a)
{
    if t != s {
        let v = choose|v: Map<u32, Seq<u8>>| t == put(s, a, #[trigger] with_vars(s.acc[a], v));
        supply_insert(s.acc, a, with_vars(s.acc[a], v));
        assert(t.acc.dom() =~= s.acc.dom());
    }
}
pub struct TokioRuntime { pub x: u8 }
impl TokioRuntime {
    #[verifier::external_body]
    pub fn clone(&self) -> TokioRuntime { unimplemented!() }
}

// ---------------------------------------------------------------- wasmer
#[verifier::external_body]
pub struct Memory { x: u8 }
pub struct WasmPtr<T> { pub o: u32, pub t: Ghost<Option<T>> }
impl<T> WasmPtr<T> {
    #[verifier::external_body]
    pub fn new(offset: u32) -> (r: WasmPtr<T>) ensures r.o == offset { unimplemented!() }
    pub fn offset(&self) -> (r: u32) ensures r == self.o { self.o }
}
pub struct Cell { pub x: u8 }
impl Cell {
    #[verifier::external_body]
    pub fn set(&self, b: u8) { unimplemented!() }
}
/// Memory outside its bounds makes these panic.
impl Memory {
    #[verifier::external_body]
    pub fn bytes_at<const N: usize>(&self, g: &Db, start: usize) -> [u8; N] requires g.pk() { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes_in(&self, g: &Db, start: usize, end: usize) -> Vec<u8> requires g.pk() { unimplemented!() }
    #[verifier::external_body]
    pub fn cells(&self, g: &Db, start: usize, n: usize) -> Vec<Cell> requires g.pk() { unimplemented!() }
    #[verifier::external_body]
    pub fn data_size(&self) -> (r: u64) ensures r <= 0x1_0000_0000 { unimplemented!() }
}
#[verifier::external_body]
pub fn zip_cells<'a>(c: &'a [Cell], b: &'a [u8]) -> (r: VecIter<(&'a Cell, &'a u8)>) ensures r.i@ == 0 { unimplemented!() }
#[verifier::external_body]
pub fn read_memory_bytes(g: &Db, env: &FuncEnv, p: u32) -> (r: Option<Address>) requires g.pk() { unimplemented!() }

// ---------------------------------------------------------------- func_env.rs
#[verifier::external_body]
pub struct Touched { x: u8 }
impl Touched {
    #[verifier::external_body]
    pub fn new() -> Touched { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, a: Address) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> Touched { unimplemented!() }
}
#[verifier::external_body]
pub struct ReceiptLog { x: u8 }
impl ReceiptLog {
    #[verifier::external_body]
    pub fn new(b: Vec<u8>) -> ReceiptLog { unimplemented!() }
}
/// std::mem::take
#[verifier::external_body]
pub fn take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
//@item-eq env enum:AccessMode
pub struct Inner { pub storage: AccountStorage, pub logs: Vec<ReceiptLog>, pub returndata: Option<(usize, usize)>, pub memory: Option<Memory>, pub used_memory: u64,
    pub calldata: Option<(usize, usize)>, pub mode: AccessMode, pub touched_accounts: Touched }
pub struct FuncEnv { pub tokio_rt: TokioRuntime, pub template_addr: TemplateAddr, pub target_addr: Address, pub inner: Inner, pub envelope: Envelope, pub context: Context }
impl FuncEnv {
//@fn env FuncEnv::new
//@local let env = Self ==> let mut env = FuncEnv
//@local Arc :: new \(RwLock :: new \(inner\)\) ==> inner
//@contract
    requires storage.address == target_addr
    ensures r.wf(), r.inner.mode == mode, r.target_addr == target_addr, r.template_addr == template_addr, r.inner.returndata is None
//@endfn
    pub open spec fn can_read(&self) -> bool { !(self.inner.mode is AccessDenied) }
    pub open spec fn can_write(&self) -> bool { self.inner.mode is FullAccess }
    /// What never changes while a program runs.
    pub open spec fn same(&self, o: FuncEnv) -> bool {
        self.inner.mode == o.inner.mode && self.target_addr == o.target_addr && self.template_addr == o.template_addr && self.inner.storage.address == o.inner.storage.address
    }
    pub open spec fn wf(&self) -> bool { self.inner.storage.address == self.target_addr && self.inner.used_memory <= 0x1_0000_0000
        && (self.inner.returndata matches Some(x) ==> x.0 <= u32::MAX && x.1 <= u32::MAX) }

//@fn env FuncEnv::set_access_mode mut
//@contract
    ensures final(self).inner.mode == mode, final(self).target_addr == old(self).target_addr, final(self).template_addr == old(self).template_addr,
        *final(self) == (FuncEnv { inner: Inner { mode: mode, ..old(self).inner }, ..*old(self) })
//@endfn

//@fn env FuncEnv::access_mode
//@contract
    ensures r == self.inner.mode
//@endfn
}
impl Inner {
//@fn env Inner::new
//@contract
    ensures r.storage == storage, r.mode is AccessDenied, r.used_memory == 0, r.returndata is None
//@endfn
//@fn env Inner::can_read
//@contract
    ensures r == !(self.mode is AccessDenied)
//@endfn

//@fn env Inner::can_write
//@contract
    ensures r == (self.mode is FullAccess)
//@endfn

//@fn env Inner::set_access_mode
//@contract
    ensures *final(self) == (Inner { mode: mode, ..*old(self) })
//@endfn

//@fn env Inner::storage heap
//@contract
    requires old(g).pk()
    ensures *final(g) == *old(g), !(self.mode is AccessDenied), *r == self.storage
//@endfn

//@fn env Inner::storage_mut heap
//@contract
    requires old(g).pk()
    ensures *final(g) == *old(g), old(self).mode is FullAccess, *r == old(self).storage, *final(self) == (Inner { storage: *final(r), ..*old(self) })
//@endfn

//@fn env Inner::memory heap
//@contract
    requires old(g).pk()
    ensures *final(g) == *old(g)
//@endfn
//@fn env Inner::set_returndata heap
//@contract
    requires old(g).pk()
    ensures *final(g) == *old(g), len > 0, *final(self) == (Inner { returndata: Some((offset, len)), ..*old(self) })
//@endfn
//@fn env Inner::returndata
//@contract
    ensures r == self.returndata
//@endfn
//@fn env Inner::calldata heap
//@contract
    requires old(g).pk()
    ensures *final(g) == *old(g)
//@endfn
//@fn env Inner::set_calldata heap
//@contract
    ensures *final(g) == *old(g), *final(self) == (Inner { calldata: Some((offset, len)), ..*old(self) })
//@endfn
//@fn env Inner::allocated_memory heap
//@contract
    requires old(g).pk()
    ensures *final(g) == *old(g), r <= 0x1_0000_0000
//@endfn
//@fn env Inner::used_memory
//@contract
    ensures r == self.used_memory
//@endfn
//@fn env Inner::set_used_memory
//@contract
    ensures *final(self) == (Inner { used_memory: used_memory, ..*old(self) })
//@endfn
//@fn env Inner::set_memory heap
//@contract
    ensures *final(g) == *old(g), *final(self) == (Inner { memory: Some(memory), ..*old(self) })
//@endfn
//@fn env Inner::logs_mut
//@contract
    ensures *r == old(self).logs, *final(self) == (Inner { logs: *final(r), ..*old(self) })
//@endfn
//@fn env Inner::take_logs
//@contract
    ensures r@ == old(self).logs@, *final(self) == (Inner { logs: final(self).logs, ..*old(self) }), final(self).logs@.len() == 0
//@endfn
//@fn env Inner::touched_accounts
//@local HashSet < Address > ==> Touched
//@contract
    ensures true
//@endfn
//@fn env Inner::touch_account
//@contract
    ensures *final(self) == (Inner { touched_accounts: final(self).touched_accounts, ..*old(self) })
//@endfn
}

// ---------------------------------------------------------------- vmcalls
/// Every vmcall: what a running program may do, and only as far as its access mode allows.
pub open spec fn vm(g0: Db, g1: Db, e0: FuncEnv, e1: FuncEnv) -> bool {
    g1.frame(g0) && e1.same(e0) && e1.wf() && (COINS ==> step(g0.cur@, g1.cur@, e0.target_addr)) && (MODE && !e0.can_write() ==> g1.cur == g0.cur)
}
/// The outcome of a transfer that did not fail.
pub open spec fn paid(s: St, t: St, src: Address, dst: Address, amount: int) -> bool {
    &&& s.acc.contains_key(src) && s.acc.contains_key(dst) && s.acc[src].balance >= amount
    &&& if src == dst { t == s } else { s.acc[dst].balance + amount <= u64::MAX && t == moved(s, src, dst, amount) }
}
proof fn step_self(s: St, a: Address) ensures step(s, s, a) {}

//@fn v_storage get32 heap
//@contract
    requires old(g).pk(), old(env).wf()
    ensures vm(*old(g), *final(g), *old(env), *final(env)), final(g).cur == old(g).cur, MODE ==> old(env).can_read()
//@endfn
//@fn v_storage get64 heap
//@contract
    requires old(g).pk(), old(env).wf()
    ensures vm(*old(g), *final(g), *old(env), *final(env)), final(g).cur == old(g).cur, MODE ==> old(env).can_read()
//@endfn
//@fn v_storage set32 heap
//@contract
    requires old(g).pk(), old(env).wf(), old(g).guarded@
    ensures vm(*old(g), *final(g), *old(env), *final(env)), MODE ==> old(env).can_write()
//@end
    proof { step_vars(old(g).cur@, g.cur@, old(env).target_addr); }
//@endfn
//@fn v_storage set64 heap
//@contract
    requires old(g).pk(), old(env).wf(), old(g).guarded@
    ensures vm(*old(g), *final(g), *old(env), *final(env)), MODE ==> old(env).can_write()
//@end
    proof { step_vars(old(g).cur@, g.cur@, old(env).target_addr); }
//@endfn

//@fn v_transfer read_addr heap
//@local let ptr : WasmPtr < \[u8 ; Address :: N\] > = WasmPtr :: new \(ptr\.offset \(\)\); ==> let ptr: u32 = ptr.offset();
//@local super :: ==>
//@local Address :: new \(bytes\) ==> bytes
//@contract
    requires old(g).pk()
    ensures *final(g) == *old(g), *final(env) == *old(env)
//@endfn

//@fn v_transfer svm_transfer heap
//@contract
    requires old(g).pk(), old(env).wf(), old(g).guarded@
    ensures vm(*old(g), *final(g), *old(env), *final(env)), MODE && amount > 0 ==> old(env).can_write(),
        // exactly the requested amount moves, from the executing account to an existing one
        COINS && amount == 0 ==> final(g).cur == old(g).cur,
        COINS && amount > 0 ==> exists|dst: Address| #[trigger] paid(old(g).cur@, final(g).cur@, old(env).target_addr, dst, amount as int),
//@end
    proof {
        let (s, t) = (old(env).target_addr, dst_addr);
        if COINS {
            if s != t { step_transfer(old(g).cur@, s, t, amount as int); assert(g.cur@ =~= moved(old(g).cur@, s, t, amount as int)); }
            assert(paid(old(g).cur@, g.cur@, s, t, amount as int));
        }
    }
//@endfn

//@fn v_storage store heap
//@local (?s)let view = & memory\.view :: < u8 > \(\) \[ start \.\. \] \[ \.\. N \];.*?\.try_into \(\)\.unwrap \(\) ==> memory.bytes_at::<N>(g, start)
//@contract
    requires old(g).pk(), old(env).wf(), old(g).guarded@
    ensures vm(*old(g), *final(g), *old(env), *final(env)), MODE ==> old(env).can_write()
//@end
    proof { step_vars(old(g).cur@, g.cur@, old(env).target_addr); }
//@endfn

//@fn v_storage load as=load_n heap
//@local & borrow\.memory\(g\)\.view :: < u8 > \(\) \[ start \.\. \] \[ \.\. N \] ==> borrow.memory(g).cells(g, start, N)
//@local \(view\.iter \(\)\.zip \(bytes\.iter \(\)\)\)\.model_iter \(\) ==> zip_cells(view.as_slice(), &bytes)
//@contract
    requires old(g).pk(), old(env).wf()
    ensures vm(*old(g), *final(g), *old(env), *final(env)), final(g).cur == old(g).cur, MODE ==> old(env).can_read()
//@inv 0
    invariant 0 <= __it0.i@ <= __it0.v@.len()
    decreases __it0.v@.len() - __it0.i@
//@endfn

//@fn v_storage store160 heap
//@contract
    requires old(g).pk(), old(env).wf(), old(g).guarded@
    ensures vm(*old(g), *final(g), *old(env), *final(env)), MODE ==> old(env).can_write()
//@endfn

//@fn v_storage load160 heap
//@local load\(g ==> load_n(g
//@local load :: ==> load_n::
//@contract
    requires old(g).pk(), old(env).wf()
    ensures vm(*old(g), *final(g), *old(env), *final(env)), final(g).cur == old(g).cur, MODE ==> old(env).can_read()
//@endfn

//@fn v_alloc static_alloc heap
//@contract
    requires old(g).pk(), old(env).wf()
    ensures vm(*old(g), *final(g), *old(env), *final(env)), final(g).cur == old(g).cur
//@endfn
//@fn v_alloc allocated_memory heap
//@contract
    requires old(g).pk()
    ensures *final(g) == *old(g), *final(env) == *old(env), r <= 0x1_0000_0000
//@endfn
//@fn v_alloc used_memory
//@contract
    ensures *final(env) == *old(env), r == old(env).inner.used_memory
//@endfn
//@fn v_alloc set_used_memory
//@contract
    ensures *final(env) == (FuncEnv { inner: Inner { used_memory: used, ..old(env).inner }, ..*old(env) })
//@endfn
//@fn v_ret set_returndata heap
//@contract
    requires old(g).pk(), old(env).wf()
    ensures vm(*old(g), *final(g), *old(env), *final(env)), final(g).cur == old(g).cur
//@endfn
//@fn v_cd calldata heap
//@contract
    requires old(g).pk(), old(env).wf()
    ensures vm(*old(g), *final(g), *old(env), *final(env)), final(g).cur == old(g).cur
//@endfn
//@fn v_cd calldata_offset heap
//@contract
    requires old(g).pk(), old(env).wf()
    ensures vm(*old(g), *final(g), *old(env), *final(env)), final(g).cur == old(g).cur
//@endfn
//@fn v_cd calldata_len heap
//@contract
    requires old(g).pk(), old(env).wf()
    ensures vm(*old(g), *final(g), *old(env), *final(env)), final(g).cur == old(g).cur
//@endfn
//@fn v_log log heap
//@local (?s)\(match memory\.view \(\) \[ start \.\. end \].*?\.collect \(\) ==> memory.bytes_in(g, start, end)
//@contract
    requires old(g).pk(), old(env).wf()
    ensures vm(*old(g), *final(g), *old(env), *final(env)), final(g).cur == old(g).cur
//@endfn

// ---------------------------------------------------------------- messages, receipts (svm_types)
#[verifier::external_body]
pub struct Context { x: u8 }
impl Context {
    #[verifier::external_body]
    pub fn state(&self) -> &State { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> Context { unimplemented!() }
}
impl State {
    #[verifier::external_body]
    pub fn zeros() -> State { unimplemented!() }
}
//@item-eq gas struct:Gas
//@item-eq gas enum:GasMode
impl Gas {
    pub closed spec fn limit(&self) -> Option<u64> { self.0 }
//@fn gas Gas::new
//@contract
    ensures r.limit() is None
//@endfn
//@fn gas Gas::with
//@contract
    ensures r.limit() == Some(gas)
//@endfn
//@fn gas Gas::unwrap_or
//@contract
    ensures r == (match self.limit() { Some(x) => x, None => default })
//@endfn
//@fn gas PartialOrd<u64>@Gas::partial_cmp
//@local lhs\.partial_cmp \(rhs\) ==> cmp_u64(lhs, *rhs)
//@contract
    ensures r == (match self.limit() { None => Some(Ordering::Greater), Some(x) => Some(ord(x, *rhs)) })
//@endfn
}
pub open spec fn ord(a: u64, b: u64) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
#[verifier::external_body]
pub fn cmp_u64(a: u64, b: u64) -> (r: Option<Ordering>) ensures r == Some(ord(a, b)) { a.partial_cmp(&b) }
/// Gas < u64, as Rust defines it by partial_cmp.
pub fn lt_u64(a: Gas, b: u64) -> (r: bool) ensures r == (a.limit() matches Some(x) && x < b) { match a.partial_cmp(&b) { Some(Ordering::Less) => true, _ => false } }

//@fn gaslib deploy
//@contract
    requires bytes@.len() <= MAX_MESSAGE
    ensures r == deploy_price(bytes@)
//@endfn
//@fn gaslib spawn as=spawn_price
//@contract
    requires bytes@.len() <= MAX_MESSAGE
    ensures r == spawn_price_of(bytes@)
//@endfn
/// 9 petabytes
pub spec const MAX_MESSAGE: int = 0x20_0000_0000_0000;
/// Whatever the price is.
//@spec gaslib deploy : deploy_price(bytes: Seq<u8>) -> int
//@spec gaslib spawn : spawn_price_of(bytes: Seq<u8>) -> int

//@item-eq tank enum:GasTank
impl GasTank {
    pub open spec fn left(&self) -> int { match self { GasTank::NonEmpty(x) => *x as int, GasTank::Empty => 0 } }
//@fn tank GasTank::new
//@contract
    ensures GAS ==> r.left() == limit_of(gas), GAS && limit_of(gas) > 0 ==> r is NonEmpty
//@endfn
//@fn tank GasTank::is_empty
//@contract
    ensures r == (self is Empty)
//@endfn
//@fn tank GasTank::consume
//@contract
    ensures GAS ==> took(self, gas as int, r)
//@endfn
}
/// What is left is the difference; nothing when there was less. (Exactly enough may count as empty or not.)
pub open spec fn took(before: GasTank, price: int, after: GasTank) -> bool {
    &&& after.left() == if before.left() > price { before.left() - price } else { 0 }
    &&& before.left() > price ==> after is NonEmpty
    &&& before is Empty || before.left() < price ==> after is Empty
}
pub open spec fn limit_of(g: Gas) -> int { match g.limit() { Some(x) => x as int, None => u64::MAX as int } }

#[verifier::external_body]
pub struct Envelope { x: u8 }
impl Envelope {
    pub uninterp spec fn limit(&self) -> Gas;
    #[verifier::external_body]
    pub fn gas_limit(&self) -> (r: Gas) ensures r == self.limit() { unimplemented!() }
    #[verifier::external_body]
    pub fn principal(&self) -> &Address { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> Envelope { unimplemented!() }
}
pub struct DecodeError;
#[verifier::external_body]
pub struct Account { x: u8 }
impl Account {
    pub uninterp spec fn tpl(&self) -> TemplateAddr;
    #[verifier::external_body]
    pub fn template_addr(&self, g: &Db) -> (r: &TemplateAddr) ensures *r == self.tpl() { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> &str { unimplemented!() }
}
pub struct SpawnAccount { pub account: Account }
impl SpawnAccount {
    pub uninterp spec fn decoded(b: Seq<u8>) -> core::result::Result<SpawnAccount, DecodeError>;
    pub uninterp spec fn ctor(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn decode_bytes(b: &[u8]) -> (r: core::result::Result<SpawnAccount, DecodeError>) ensures r == Self::decoded(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn template_addr(&self, g: &Db) -> (r: &TemplateAddr) ensures *r == self.account.tpl() { unimplemented!() }
    #[verifier::external_body]
    pub fn account(&self) -> (r: &Account) ensures *r == self.account { unimplemented!() }
    #[verifier::external_body]
    pub fn ctor_name(&self) -> (r: &str) ensures r@ == self.ctor() { unimplemented!() }
    #[verifier::external_body]
    pub fn ctor_data(&self) -> (r: &[u8]) ensures r@.len() <= isize::MAX { unimplemented!() }
}
pub uninterp spec fn account_addr(t: TemplateAddr) -> Address;
#[verifier::external_body]
pub fn compute_account_addr(spawn: &SpawnAccount) -> (r: Address) ensures r == account_addr(spawn.account.tpl()) { unimplemented!() }
#[verifier::external_body]
pub struct Transaction { x: u8 }
impl Transaction {
    pub uninterp spec fn decoded(b: Seq<u8>) -> core::result::Result<Transaction, DecodeError>;
    pub uninterp spec fn to(&self) -> Address;
    pub uninterp spec fn func(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn decode_bytes(b: &[u8]) -> (r: core::result::Result<Transaction, DecodeError>) ensures r == Self::decoded(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn target(&self) -> (r: &Address) ensures *r == self.to() { unimplemented!() }
    #[verifier::external_body]
    pub fn func_name(&self) -> (r: &str) ensures r@ == self.func() { unimplemented!() }
    #[verifier::external_body]
    pub fn calldata(&self, g: &Db) -> (r: &[u8]) ensures r@.len() <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn verifydata(&self) -> (r: &[u8]) ensures r@.len() <= isize::MAX { unimplemented!() }
}
#[verifier::external_body]
pub struct Sections { x: u8 }
impl Sections {
    pub uninterp spec fn decoded(b: Seq<u8>) -> core::result::Result<Sections, DecodeError>;
    pub uninterp spec fn template(&self) -> Template;
    #[verifier::external_body]
    pub fn decode_bytes(b: &[u8]) -> (r: core::result::Result<Sections, DecodeError>) ensures r == Self::decoded(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Sections) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct CodeSection { x: u8 }
impl CodeSection {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn addr(&self) -> TemplateAddr;
    #[verifier::external_body]
    pub fn code(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn gas_mode(&self) -> GasMode { unimplemented!() }
}
#[verifier::external_body]
pub fn compute_template_addr(c: &CodeSection) -> (r: TemplateAddr) ensures r == c.addr() { unimplemented!() }
impl Template {
    pub uninterp spec fn section(&self) -> CodeSection;
    pub uninterp spec fn all(&self) -> Sections;
    #[verifier::external_body]
    pub fn from_sections(s: Sections) -> (r: Template) ensures r == s.template() { unimplemented!() }
    #[verifier::external_body]
    pub fn code_section(&self) -> (r: &CodeSection) ensures *r == self.section() { unimplemented!() }
    #[verifier::external_body]
    pub fn sections(&self, g: &Db) -> (r: &Sections) ensures r.template() == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn code(&self) -> (r: &[u8]) ensures r@ == self.section().bytes() { unimplemented!() }
}
pub struct TemplateStorage { pub addr: TemplateAddr }
impl TemplateStorage {
    #[verifier::external_body]
    pub fn load(g: &Db, gs: GlobalState, addr: &TemplateAddr) -> (r: StorageResult<TemplateStorage>) ensures r matches Ok(s) && s.addr == *addr { unimplemented!() }
    #[verifier::external_body]
    pub fn sections(&self, g: &Db) -> (r: StorageResult<Sections>)
        ensures r is Ok == g.cur@.tpl.contains_key(self.addr), r matches Ok(s) ==> s.template() == g.cur@.tpl[self.addr]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create(g: &mut Db, gs: GlobalState, addr: &TemplateAddr, core: Sections, noncore: Sections) -> (r: StorageResult<TemplateStorage>)
        ensures r is Ok, final(g).frame(*old(g)), final(g).cur@ == (St { tpl: old(g).cur@.tpl.insert(*addr, core.template()), ..old(g).cur@ })
    { unimplemented!() }
}

//@item err enum:RuntimeError
//@item err struct:RuntimeFailure
impl RuntimeFailure {
//@fn err RuntimeFailure::new
//@local impl Into < Vec < ReceiptLog > > ==> Vec<ReceiptLog>
//@local logs\.into \(\) ==> logs
//@contract
    ensures r.err == err, r.logs == logs
//@endfn
}
/// mod err: all say what went wrong, none of them is out-of-gas.
#[verifier::external_body]
pub fn err_func_not_found(env: &FuncEnv, f: &str) -> (r: RuntimeFailure) ensures !(r.err is OOG) { unimplemented!() }
#[verifier::external_body]
pub fn err_func_invalid_sig(env: &FuncEnv, f: &str) -> (r: RuntimeFailure) ensures !(r.err is OOG) { unimplemented!() }
#[verifier::external_body]
pub fn err_func_not_ctor(t: &TemplateAddr, f: &str) -> (r: RuntimeFailure) ensures r.err is FuncNotCtor { unimplemented!() }
#[verifier::external_body]
pub fn err_func_not_allowed(env: &FuncEnv, f: &str, m: &str) -> (r: RuntimeFailure) ensures r.err is FuncNotAllowed { unimplemented!() }
#[verifier::external_body]
pub fn err_instantiation_failed(env: &FuncEnv, e: WErr) -> (r: RuntimeFailure) ensures !(r.err is OOG) { unimplemented!() }
#[verifier::external_body]
pub fn err_compilation_failed(env: &FuncEnv, e: WErr) -> (r: RuntimeFailure) ensures !(r.err is OOG) { unimplemented!() }
#[verifier::external_body]
pub fn err_func_failed(env: &FuncEnv, f: &str, e: WErr, logs: Vec<ReceiptLog>) -> (r: RuntimeFailure) ensures !(r.err is OOG) { unimplemented!() }

//@item rc_call struct:CallReceipt
impl CallReceipt {
//@fn rc_call CallReceipt::from_err
//@contract
    ensures !r.success, r.error == Some(err), r.new_state is None
//@endfn
//@fn rc_call CallReceipt::take_logs
//@contract
    ensures *final(self) == (CallReceipt { logs: final(self).logs, ..*old(self) }), r@ == old(self).logs@
//@endfn
}
//@item rc_spawn struct:SpawnReceipt
impl SpawnReceipt {
//@fn rc_spawn SpawnReceipt::new_oog
//@contract
    ensures !r.success, r.error == Some(RuntimeError::OOG)
//@endfn
//@fn rc_spawn SpawnReceipt::from_err
//@contract
    ensures !r.success, r.error == Some(error)
//@endfn
}
//@fn rc_spawn into_spawn_receipt heap
//@contract
    requires ctor_receipt.success || ctor_receipt.error is Some
    ensures *final(g) == *old(g), r.success == ctor_receipt.success, r.success ==> r.account_addr == Some(*account_addr) && r.error is None, !r.success ==> r.error == ctor_receipt.error
//@endfn
//@item rc_deploy struct:DeployReceipt
impl DeployReceipt {
//@fn rc_deploy DeployReceipt::new
//@contract
    ensures r.success, r.addr == Some(addr), r.gas_used == gas_used
//@endfn
//@fn rc_deploy DeployReceipt::new_oog
//@contract
    ensures !r.success, r.error == Some(RuntimeError::OOG)
//@endfn
//@fn rc_deploy DeployReceipt::from_err
//@contract
    ensures !r.success, r.error == Some(error)
//@endfn
}

// ---------------------------------------------------------------- wasmer: instances and functions
pub struct WErr;
pub struct OOGError;
#[verifier::external_body]
pub struct Val { x: u8 }
impl Val {
    #[verifier::external_body]
    pub fn i32(&self) -> Option<i32> { unimplemented!() }
}
#[verifier::external_body]
pub fn no_params() -> Vec<Val> { unimplemented!() }
#[verifier::external_body]
pub fn params_of(n: i32) -> Vec<Val> { unimplemented!() }
#[verifier::external_body]
pub fn val_at<'a>(g: &Db, v: &'a Vec<Val>, i: usize) -> &'a Val requires g.pk() { unimplemented!() }
pub struct Store { pub x: u8 }
#[verifier::external_body]
pub fn new_store() -> Store { unimplemented!() }
pub struct ImportObject { pub x: u8 }
pub struct Module { pub x: u8 }
impl Module {
    #[verifier::external_body]
    pub fn from_binary(store: &Store, code: &[u8]) -> core::result::Result<Module, WErr> { unimplemented!() }
}
pub struct Instance { pub exports: Exports }
impl Instance {
    /// Runs nothing: programs have no start function (Program::new refuses them).
    #[verifier::external_body]
    pub fn new(m: &Module, i: &ImportObject) -> core::result::Result<Instance, WErr> { unimplemented!() }
}
pub struct Exports { pub x: u8 }
impl Exports {
    #[verifier::external_body]
    pub fn get_function(&self, name: &str) -> (r: core::result::Result<&WFunc, WErr>) ensures r matches Ok(f) ==> f.name() == name@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_memory(&self, name: &str) -> core::result::Result<&Memory, WErr> { unimplemented!() }
}
impl Memory {
    #[verifier::external_body]
    pub fn clone(&self) -> Memory { unimplemented!() }
    #[verifier::external_body]
    pub fn all_cells(&self) -> Vec<Cell> { unimplemented!() }
}
#[verifier::external_body]
pub fn get_all(c: &[Cell]) -> Vec<u8> { unimplemented!() }
#[verifier::external_body]
pub struct WFunc { x: u8 }
/// What a run of a program function does: any number of vmcalls, each of them as `vm` says (step_trans). It may also end in a panic at any of them,
/// so there has to be a guard.
pub open spec fn prog(g0: Db, g1: Db, e0: FuncEnv, e1: FuncEnv) -> bool {
    g1.frame_run(g0) && e1.same(e0) && e1.wf() && (COINS ==> step(g0.cur@, g1.cur@, e0.target_addr)) && (MODE && !e0.can_write() ==> g1.cur == g0.cur)
}
impl WFunc {
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn native(&self) -> core::result::Result<(), WErr> { unimplemented!() }
    #[verifier::external_body]
    pub fn run_program(&self, g: &mut Db, env: &mut FuncEnv, params: &Vec<Val>) -> (r: core::result::Result<Vec<Val>, WErr>)
        requires old(g).pk(), old(g).guarded@, old(env).wf()
        ensures prog(*old(g), *final(g), *old(env), *final(env)), final(g).ran@ == old(g).ran@.push((self.name(), old(env).inner.mode))
    { unimplemented!() }
}
pub trait ErrOrPanic<E>: Sized {
    fn err_or_panic(self, g: &Db) -> (r: E);
}
impl<T, E> ErrOrPanic<E> for core::result::Result<T, E> {
    #[verifier::external_body]
    fn err_or_panic(self, g: &Db) -> (r: E) { unimplemented!() }
}
pub struct Function<'a> { pub func: &'a WFunc, pub name: &'a str }
impl<'a> Function<'a> {
    pub open spec fn good(&self) -> bool { self.func.name() == self.name@ }
//@fn fun Function::new
//@local , phantom : PhantomData ==>
//@contract
    ensures r.func == func, r.name == name
//@endfn
//@fn fun Function::wasmer_func
//@local & self\.func ==> self.func
//@contract
    ensures *r == *self.func
//@endfn
//@fn fun Function::name
//@local & self\.name ==> self.name
//@contract
    ensures r@ == self.name@
//@endfn
}
pub struct Outcome<T> { pub returns: T, pub gas_used: Gas, pub logs: Vec<ReceiptLog> }
impl<T> Outcome<T> {
//@fn out Outcome::new
//@contract
    ensures r.returns == returns, r.gas_used == gas_used, r.logs == logs
//@endfn
//@fn out Outcome::take_logs
//@contract
    ensures final(self).returns == old(self).returns, final(self).gas_used == old(self).gas_used, r@ == old(self).logs@
//@endfn
//@fn out Outcome::gas_used
//@contract
    ensures r == self.gas_used
//@endfn
}
impl<T> Outcome<Vec<T>> {
//@fn out Outcome::take_returns
//@local (\x01)T (\x01) ==> \1Vec<T>\2
//@contract
    ensures r@ == old(self).returns@
//@endfn
}

// ---------------------------------------------------------------- svm_program, svm_gas
pub struct ProgramError;
#[verifier::external_body]
pub struct Program { x: u8 }
#[verifier::external_body]
pub struct ProgramExports { x: u8 }
#[derive(Clone, Copy)]
pub struct FuncIndex(pub u32);
#[verifier::external_body]
pub struct FuncPrice { x: u8 }
pub uninterp spec fn program_of(code: Seq<u8>) -> Program;
pub uninterp spec fn index_of(p: Program, f: Seq<char>) -> Option<FuncIndex>;
pub uninterp spec fn price(p: Program, f: FuncIndex) -> usize;
impl Program {
    #[verifier::external_body]
    pub fn new(code: &[u8], validate_exports: bool) -> (r: core::result::Result<Program, ProgramError>) ensures r matches Ok(p) ==> p == program_of(code@) { unimplemented!() }
    #[verifier::external_body]
    pub fn exports(&self) -> (r: &ProgramExports) ensures r.of() == *self { unimplemented!() }
}
impl ProgramExports {
    pub uninterp spec fn of(&self) -> Program;
    #[verifier::external_body]
    pub fn get(&self, f: &str) -> (r: Option<FuncIndex>) ensures r == index_of(self.of(), f@) { unimplemented!() }
}
impl FuncPrice {
    pub uninterp spec fn of(&self) -> Program;
    #[verifier::external_body]
    pub fn get(&self, i: FuncIndex) -> (r: usize) ensures r == price(self.of(), i) { unimplemented!() }
}
pub struct TemplatePriceCache { pub x: u8 }
impl TemplatePriceCache {
    #[verifier::external_body]
    pub fn price_of(&self, t: &TemplateAddr, p: &Program) -> (r: FuncPrice) ensures r.of() == *p { unimplemented!() }
}
pub open spec fn func_price(t: Template, f: Seq<char>) -> int {
    let p = program_of(t.section().bytes());
    price(p, index_of(p, f)->Some_0) as int
}

// ---------------------------------------------------------------- runtime.rs
//@item rt type:OutcomeResult
//@item rt type:Result
//@item call struct:Call
pub struct PendingChanges { pub tokio_rt: TokioRuntime, pub gs: GlobalState }
impl PendingChanges {
//@fn rt Drop@PendingChanges::drop as=drop_impl heap
//@local & mut self ==> &self
//@contract
    ensures *final(g) == (Db { cur: old(g).saved, ..*old(g) })
//@endfn
}
pub const ALLOC: &'static str = "svm_alloc";
/// The functions run between r0 and r1: svm_alloc without access, and `name` in mode `mode`.
pub open spec fn ran_ok(r0: Seq<(Seq<char>, AccessMode)>, r1: Seq<(Seq<char>, AccessMode)>, name: Seq<char>, mode: AccessMode) -> bool {
    &&& r0.len() <= r1.len() <= r0.len() + 2
    &&& forall|i: int| #![trigger r1[i]] 0 <= i < r0.len() ==> r1[i] == r0[i]
    &&& forall|i: int| #![trigger r1[i]] r0.len() <= i < r1.len() ==> (r1[i].0 == "svm_alloc"@ && (MODE ==> r1[i].1 is AccessDenied)) || (CTOR || MODE ==> r1[i].0 == name) && (MODE ==> r1[i].1 == mode)
}
/// ... of which `name` in mode `mode` was the last.
pub open spec fn ran_last(r0: Seq<(Seq<char>, AccessMode)>, r1: Seq<(Seq<char>, AccessMode)>, name: Seq<char>, mode: AccessMode) -> bool {
    ran_ok(r0, r1, name, mode) && r1.len() > r0.len() && (CTOR || MODE ==> r1.last().0 == name) && (MODE ==> r1.last().1 == mode)
}
pub struct Runtime { pub tokio_rt: TokioRuntime, pub gs: GlobalState, pub template_price: TemplatePriceCache }
pub open spec fn template_at(s: St, a: Address) -> Template { s.tpl[s.acc[a].template] }
pub open spec fn call_wf(c: Call) -> bool { c.func_input@.len() <= isize::MAX }

//@fn rt read_memory heap
//@local memory\.view :: < u8 > \(\) ==> memory.all_cells()
//@local & view \[ offset \.\. \(offset \+ length\) \] ==> &view.as_slice()[offset..(offset + length)]
//@local \(match cells\.iter .*?\.collect \(\) ==> get_all(cells)
//@contract
    requires old(g).pk(), offset <= u32::MAX, length <= u32::MAX
    ensures *final(g) == *old(g), *final(env) == *old(env)
//@endfn
//@fn rt set_memory heap
//@contract
    requires old(g).pk(), old(env).wf()
    ensures *final(g) == *old(g), final(env).same(*old(env)), final(env).wf(), final(env).inner.returndata == old(env).inner.returndata
//@endfn
//@fn rt set_calldata heap
//@local memory\.view :: < u8 > \(\) ==> memory.all_cells()
//@local & view \[ offset \.\. \(offset \+ length\) \] ==> &view.as_slice()[offset..(offset + length)]
//@local \(cells\.iter \(\)\.zip \(calldata\.iter \(\)\)\)\.model_iter \(\) ==> zip_cells(cells, calldata)
//@contract
    requires old(g).pk(), old(env).wf(), 0 < calldata@.len() <= isize::MAX
    ensures *final(g) == *old(g), final(env).same(*old(env)), final(env).wf()
//@inv 0
    invariant 0 <= __it0.i@ <= __it0.v@.len()
    decreases __it0.v@.len() - __it0.i@
//@endfn
//@fn rt assert_no_returndata heap
//@contract
    requires old(g).pk()
    ensures *final(g) == *old(g), *final(env) == *old(env)
//@endfn
//@fn rt take_returndata heap
//@contract
    requires old(g).pk(), old(env).wf()
    ensures *final(g) == *old(g), *final(env) == *old(env)
//@endfn
//@fn rt commit_changes heap
//@local \.1\.into \(\) ==> .1
//@contract
    requires old(g).pk()
    ensures *final(env) == *old(env), r is Ok, final(g).committed(*old(g))
//@endfn
//@fn rt outcome_to_receipt heap
//@local & env ==> env
//@contract
    requires old(g).pk(), old(env).wf()
    ensures r.success, final(g).committed(*old(g))
//@endfn
//@fn rt instance_gas_used
//@contract
    ensures r is Ok
//@endfn

impl Runtime {
//@fn rt Runtime::save_pending_changes heap
//@contract
    ensures *final(g) == (Db { saved: old(g).cur, ..*old(g) })
//@endfn
//@fn rt Runtime::get_account heap
//@contract
    ensures *final(g) == *old(g), r is Some == old(g).has(*account_addr),
        r matches Some(x) ==> x == (old(g).at(*account_addr).balance, old(g).at(*account_addr).counter, old(g).at(*account_addr).template)
//@endfn
//@fn rt Runtime::transfer heap
//@contract
    requires old(g).pk(), !old(g).guarded@
    ensures final(g).frame(*old(g)), COINS ==> paid(old(g).cur@, final(g).cur@, *src_addr, *dst_addr, amount as int) && supply(final(g).cur@.acc) == supply(old(g).cur@.acc)
//@end
    proof {
        let (s, t) = (*src_addr, *dst_addr);
        if COINS && s != t { step_transfer(old(g).cur@, s, t, amount as int); assert(g.cur@ =~= moved(old(g).cur@, s, t, amount as int)); }
    }
//@endfn
//@fn rt Runtime::increase_balance heap
//@contract
    requires old(g).pk(), !old(g).guarded@
    ensures final(g).frame(*old(g)), r is Ok, COINS ==> old(g).has(*account_addr) && old(g).at(*account_addr).balance + amount <= u64::MAX,
        COINS ==> final(g).cur@ == put(old(g).cur@, *account_addr, with_balance(old(g).at(*account_addr), (old(g).at(*account_addr).balance + amount) as u64))
//@endfn
//@fn rt Runtime::create_account heap
//@contract
    requires old(g).pk(), !old(g).guarded@
    ensures final(g).frame(*old(g)), r is Ok,
        exists|x: Acct| final(g).cur@ == put(old(g).cur@, *account_addr, x) && #[trigger] x.balance == balance && x.counter == counter && x.template == template_addr
//@endfn
//@fn rt Runtime::account_template heap
//@contract
    requires old(g).pk()
    ensures *final(g) == *old(g), r == Ok::<Template, RuntimeFailure>(template_at(old(g).cur@, *account_addr)), old(g).has(*account_addr)
//@endfn
//@fn rt Runtime::load_template heap
//@contract
    requires old(g).pk()
    ensures *final(g) == *old(g), r == Ok::<Template, RuntimeFailure>(old(g).cur@.tpl[*template_addr]), old(g).cur@.tpl.contains_key(*template_addr)
//@endfn
//@fn rt Runtime::compile_template
//@contract
    ensures *final(env) == *old(env), GAS ==> (r matches Err(e) ==> !(e.err is OOG))
//@endfn
//@fn rt Runtime::instantiate
//@contract
    ensures *final(env) == *old(env), GAS ==> (r matches Err(e) ==> !(e.err is OOG))
//@endfn
//@fn rt Runtime::func heap
//@contract
    requires old(g).pk()
    ensures *final(g) == *old(g), *final(env) == *old(env), r matches Ok(f) ==> f.good() && f.name@ == func_name@, GAS ==> (r matches Err(e) ==> !(e.err is OOG))
//@endfn
//@fn rt Runtime::ensure_ctor
//@contract
    ensures CTOR || GAS ==> r is Ok == template.lists(func_name@), r matches Err(e) ==> e.err is FuncNotCtor
//@endfn
//@fn rt Runtime::ensure_not_ctor
//@contract
    ensures *final(env) == *old(env), CTOR ==> r is Ok == !template.lists(call.func_name@), r matches Err(e) ==> e.err is FuncNotAllowed
//@endfn
//@fn rt Runtime::validate_func_usage
//@contract
    ensures *final(env) == *old(env), CTOR ==> r is Ok == (call.within_spawn == template.lists(call.func_name@)), GAS ==> (r matches Err(e) ==> !(e.err is OOG))
//@endfn
//@fn rt Runtime::wasmer_call heap
//@local wasmer_func\.call \(params\) ==> wasmer_func.run_program(g, env, params)
//@local \.unwrap_err \(\) ==> .err_or_panic(g)
//@contract
    requires old(g).pk(), old(g).guarded@, old(env).wf(), func.good()
    ensures prog(*old(g), *final(g), *old(env), *final(env)), final(g).ran@ == old(g).ran@.push((func.name@, old(env).inner.mode)), GAS ==> (r matches Err(e) ==> !(e.err is OOG))
//@endfn
//@fn rt Runtime::call_alloc heap
//@local (?s)let params : .*?into \(\)\]; ==> let params = params_of(size as i32);
//@local & rets \[0\] ==> val_at(g, &rets, 0)
//@map { let __o = $0; Outcome { returns: { let $1 = __o.returns; $2 }, gas_used: __o.gas_used, logs: __o.logs } }
//@contract
    requires old(g).pk(), old(g).guarded@, old(env).wf()
    ensures final(g).frame_run(*old(g)), MODE ==> final(g).cur == old(g).cur, COINS ==> step(old(g).cur@, final(g).cur@, old(env).target_addr), ran_ok(old(g).ran@, final(g).ran@, "svm_alloc"@, AccessMode::AccessDenied), final(g).ran@.len() <= old(g).ran@.len() + 1,
        r is Ok ==> final(env).same(*old(env)) && final(env).wf(), GAS ==> (r matches Err(e) ==> !(e.err is OOG))
//@endfn
//@fn rt Runtime::call_with_alloc heap
//@contract
    requires old(g).pk(), old(g).guarded@, old(env).wf(), func.good(), 0 < calldata@.len() <= isize::MAX
    ensures final(g).frame_run(*old(g)), COINS ==> step(old(g).cur@, final(g).cur@, old(env).target_addr), MODE && !old(env).can_write() ==> final(g).cur == old(g).cur,
        ran_ok(old(g).ran@, final(g).ran@, func.name@, old(env).inner.mode),
        r is Ok ==> final(env).same(*old(env)) && final(env).wf() && ran_last(old(g).ran@, final(g).ran@, func.name@, old(env).inner.mode),
        GAS ==> (r matches Err(e) ==> !(e.err is OOG))
//@endfn
//@fn rt Runtime::run heap
//@contract
    requires old(g).pk(), old(g).guarded@, old(func_env).wf(), call_wf(*call)
    ensures final(g).frame_run(*old(g)), COINS ==> step(old(g).cur@, final(g).cur@, old(func_env).target_addr), MODE && !old(func_env).can_write() ==> final(g).cur == old(g).cur,
        ran_ok(old(g).ran@, final(g).ran@, call.func_name@, old(func_env).inner.mode),
        CTOR && final(g).ran@.len() > old(g).ran@.len() ==> call.within_spawn == template.lists(call.func_name@),
        r is Ok ==> final(func_env).same(*old(func_env)) && final(func_env).wf() && ran_last(old(g).ran@, final(g).ran@, call.func_name@, old(func_env).inner.mode),
        GAS ==> (r matches Err(e) ==> !(e.err is OOG))
//@endfn
    /// The imports are the vmcalls, all of which are above.
    #[verifier::external_body]
    fn create_import_object(&self, store: &Store, env: &mut FuncEnv) -> (r: ImportObject) ensures *final(env) == *old(env) { unimplemented!() }
//@fn rt Runtime::exec heap
//@result
//@local , f : F (\x01)Result < R > ==> \1Result<CallReceipt>
//@local crate :: wasm_store :: ==>
//@local & env, & template ==> &mut env, &template
//@local \bf \(& env, rets\) ==> outcome_to_receipt(g, &mut env, rets)
//@contract
    requires old(g).pk(), old(g).guarded@, call_wf(*call)
    ensures r matches Ok(x) ==> x.success && final(g).saved == final(g).cur && final(g).hist@ == old(g).hist@.push(final(g).cur@)
            && ran_last(old(g).ran@, final(g).ran@, call.func_name@, call.access_mode),
        r is Err ==> final(g).saved == old(g).saved && final(g).hist == old(g).hist, GAS ==> (r matches Err(e) ==> !(e.err is OOG)),
        final(g).base == old(g).base, final(g).base_hist == old(g).base_hist, final(g).guarded == old(g).guarded,
        COINS ==> step(old(g).cur@, final(g).cur@, call.target), MODE && !(call.access_mode is FullAccess) ==> final(g).cur == old(g).cur, ran_ok(old(g).ran@, final(g).ran@, call.func_name@, call.access_mode),
        CTOR && final(g).ran@.len() > old(g).ran@.len() ==> call.within_spawn == template_at(old(g).cur@, call.target).lists(call.func_name@),
//@endfn
//@fn rt Runtime::exec_call heap
//@local , \| env, out \| outcome_to_receipt \(g, env, out\) ==>
//@local result\.unwrap_or_else \(\| fail \| ([^;]*)\); ==> match result { Ok(__v) => __v, Err(fail) => \1 };
//@guard
    g.guarded = Ghost(true);
//@end
    g.guarded = Ghost(false);
//@contract
    // nothing before the guard may panic: the caller may have created the account already
    requires TRACE ==> old(g).saved@ == old(g).base@ && old(g).hist@ == old(g).base_hist@, !old(g).guarded@, call_wf(*call)
    ensures finished(*old(g), *final(g), r.success), COINS && r.success ==> step(old(g).cur@, final(g).cur@, call.target), MODE && !(call.access_mode is FullAccess) && old(g).cur@ == old(g).saved@ ==> final(g).cur@ == old(g).cur@,
        !r.success ==> r.error is Some && (GAS ==> !(r.error->Some_0 is OOG)),
        r.success ==> ran_last(old(g).ran@, final(g).ran@, call.func_name@, call.access_mode),
        ran_ok(old(g).ran@, final(g).ran@, call.func_name@, call.access_mode),
        CTOR && final(g).ran@.len() > old(g).ran@.len() ==> call.within_spawn == template_at(old(g).cur@, call.target).lists(call.func_name@),
//@endfn
//@fn rt Runtime::build_call heap
//@contract
    requires old(g).pk(), func_input@.len() <= isize::MAX
    ensures *final(g) == *old(g), call_wf(r), r.target == tx.to(), r.func_name == func_name, r.access_mode == access_mode, !r.within_spawn
//@endfn
//@fn rt Runtime::call heap
//@contract
    requires old(g).pk(), !old(g).guarded@
    ensures Transaction::decoded(message@) matches Ok(tx) && {
        &&& TRACE && r.success ==> final(g).hist@ == old(g).hist@.push(final(g).cur@) && final(g).saved@ == final(g).cur@
        &&& COINS && r.success ==> step(old(g).cur@, final(g).cur@, tx.to())
        // a failed call leaves no trace
        &&& TRACE && !r.success ==> final(g).hist@ == old(g).hist@ && final(g).cur@ == old(g).cur@
        // it runs the function it names, with full access, and svm_alloc without any; never a constructor
        &&& ran_ok(old(g).ran@, final(g).ran@, tx.func(), AccessMode::FullAccess)
        &&& r.success ==> ran_last(old(g).ran@, final(g).ran@, tx.func(), AccessMode::FullAccess)
        &&& CTOR && final(g).ran@.len() > old(g).ran@.len() ==> !template_at(old(g).cur@, tx.to()).lists(tx.func())
    }
//@endfn
//@fn rt Runtime::verify heap
//@contract
    requires old(g).pk(), !old(g).guarded@
    ensures Transaction::decoded(message@) matches Ok(tx) && {
        // verifying changes nothing, and whatever it runs has no access
        &&& MODE ==> final(g).cur@ == old(g).cur@
        &&& ran_ok(old(g).ran@, final(g).ran@, "svm_verify"@, AccessMode::AccessDenied)
        &&& CTOR && final(g).ran@.len() > old(g).ran@.len() ==> !template_at(old(g).cur@, tx.to()).lists("svm_verify"@)
    }
//@endfn
//@fn rt Runtime::check_gas_for_payload
//@local spawn \(message\) ==> spawn_price(message)
//@contract
    requires message@.len() <= MAX_MESSAGE
    ensures GAS ==> took(gas_left, spawn_price_of(message@), r)
//@endfn
//@fn rt Runtime::check_gas_for_func heap
//@contract
    requires old(g).pk()
    ensures *final(g) == *old(g), GAS ==> took(gas_left, func_price(*template, func_name@), r)
//@endfn
//@fn rt Runtime::call_ctor heap
//@contract
    requires TRACE ==> old(g).saved@ == old(g).base@ && old(g).hist@ == old(g).base_hist@, !old(g).guarded@
    ensures finished(*old(g), *final(g), r.success), COINS && r.success ==> step(old(g).cur@, final(g).cur@, target),
        !r.success ==> r.error is Some && (GAS ==> !(r.error->Some_0 is OOG)),
        ran_ok(old(g).ran@, final(g).ran@, spawn.ctor(), AccessMode::FullAccess),
        r.success ==> ran_last(old(g).ran@, final(g).ran@, spawn.ctor(), AccessMode::FullAccess) && r.account_addr == Some(target) && r.error is None,
        CTOR && final(g).ran@.len() > old(g).ran@.len() ==> template_at(old(g).cur@, target).lists(spawn.ctor()),
//@endfn
//@fn rt Runtime::spawn heap
//@contract
    requires old(g).pk(), !old(g).guarded@, message@.len() <= MAX_MESSAGE
    ensures SpawnAccount::decoded(message@) matches Ok(spawn) && {
        let t = old(g).cur@.tpl[spawn.account.tpl()];
        let to = account_addr(spawn.account.tpl());
        let needs = spawn_price_of(message@) + func_price(t, spawn.ctor());
        &&& TRACE && r.success ==> final(g).hist@ == old(g).hist@.push(final(g).cur@) && final(g).saved@ == final(g).cur@ && r.account_addr == Some(to)
        &&& COINS && r.success ==> exists|x: Acct| #[trigger] x.balance == 0 && x.counter == 0 && x.template == spawn.account.tpl() && step(put(old(g).cur@, to, x), final(g).cur@, to)
        // a failed spawn leaves no trace
        &&& TRACE && !r.success ==> final(g).hist@ == old(g).hist@ && final(g).cur@ == old(g).cur@
        // it runs the constructor it names, which its template lists, or nothing
        &&& ran_ok(old(g).ran@, final(g).ran@, spawn.ctor(), AccessMode::FullAccess)
        &&& r.success ==> ran_last(old(g).ran@, final(g).ran@, spawn.ctor(), AccessMode::FullAccess)
        &&& CTOR && !t.lists(spawn.ctor()) ==> (r.error matches Some(e) && e is FuncNotCtor) && !r.success && final(g).ran == old(g).ran
        // gas
        &&& GAS && t.lists(spawn.ctor()) && limit_of(envelope.limit()) < needs ==> !r.success && r.error == Some(RuntimeError::OOG) && final(g).ran == old(g).ran && final(g).cur@ == old(g).cur@
        &&& GAS && limit_of(envelope.limit()) > needs ==> r.error != Some(RuntimeError::OOG)
    }
//@endfn
//@fn rt Runtime::deploy heap
//@local gas_left < deploy_price ==> lt_u64(gas_left, deploy_price)
//@contract
    requires old(g).pk(), !old(g).guarded@, message@.len() <= MAX_MESSAGE
    ensures Sections::decoded(message@) matches Ok(s) && {
        let enough = envelope.limit().limit() matches Some(x) ==> x >= deploy_price(message@);
        &&& GAS ==> r.success == enough
        &&& GAS && !enough ==> r.error == Some(RuntimeError::OOG) && *final(g) == *old(g)
        &&& GAS && enough ==> final(g).frame(*old(g))
                && final(g).cur@ == (St { tpl: old(g).cur@.tpl.insert(s.template().section().addr(), s.template()), ..old(g).cur@ })
    }
//@endfn
//@fn rt Runtime::commit heap
//@contract
    ensures r is Ok, final(g).committed(*old(g))
//@endfn
}
/// After a transaction: committed, or back to what was saved.
pub open spec fn finished(g0: Db, g1: Db, success: bool) -> bool {
    &&& g1.base == g0.base && g1.base_hist == g0.base_hist && !g1.guarded@
    &&& TRACE && success ==> g1.saved@ == g1.cur@ && g1.hist@ == g0.hist@.push(g1.cur@)
    &&& TRACE && !success ==> g1.saved == g0.saved && g1.cur@ == g0.saved@ && g1.hist == g0.hist
}
}
fn main() {}
