#![allow(non_camel_case_types)]
use vstd::prelude::*;
//@src res crates/host/runtime-ffi/src/result.rs
//@src api crates/host/runtime-ffi/src/c_api.rs
//@heap h : &mut World : new_error new_receipt from_residual get_runtime get commit rewind transfer increase_balance create_genesis_account svm_runtime_action svm_validate
//@sub \* (mut|const) (u8|u64|c_void|svm_account) ==> Ptr
//@sub & 'static mut Runtime ==> Handle
//@sub RUNTIME_TRACKER\. ==> runtime_tracker().
//@sub (std :: )?slice :: from_raw_parts \( ==> caller_bytes(
//@sub (svm_result_t|Self) :: OK ==> svm_result_t::ok_value()
//@sub \.expect \( "[^"]*" , \) ==> .or_panic()
//@sub \.expect \( "[^"]*" \) ==> .or_panic()
//@sub \.unwrap \( ==> .or_panic(
//@sub ("[^"]*")\.to_string \( \) ==> \1
//@sub let (\w+) = ([^;=]*?)\? ; ==> let \1 = match \2 { Ok(__v) => __v, Err(__e) => return svm_result_t::from_residual(h, Err(__e)) };
//@sub ([;{}]\s*)([^;{}=]*?)\? ; ==> \1let _ = match \2 { Ok(__v) => __v, Err(__e) => return svm_result_t::from_residual(h, Err(__e)) };
//@sub if ([^;{}=]*?)\? \{ ==> if (match \1 { Ok(__v) => __v, Err(__e) => return svm_result_t::from_residual(h, Err(__e)) }) {
//@sub rt_assert \( ==> assert_or_panic(
//@sub \| (\w+) , (\w+) , (\w+) , (\w+) \| (?:Runtime :: (\w+) \( \1 , \2 , \3 , \4 \)|\1\.(\w+) \( \2 , \3 , \4 \)) ==> Func::\5\6()
//@sub \| (\w+) , (\w+) \| (?:Runtime :: (\w+) \( \1 , \2 \)|\1\.(\w+) \( \2 \)) ==> Func::\3\4()
//@sub , Runtime :: (\w+) , ==> , Func::\1(),
verus! {
global size_of usize == 8;
#[derive(Clone, Copy)]
pub struct Ptr { pub addr: usize }
impl Ptr {
    pub fn is_null(&self) -> (r: bool) ensures r == (self.addr == 0) { self.addr == 0 }
}
/// A call made to a runtime.
pub ghost enum Op {
    Commit { rt: int },
    Rewind { rt: int, layer: u64 },
    Genesis { rt: int, addr: Seq<u8>, name: Seq<char>, balance: u64, counter: u128 },
    Increase { rt: int, addr: Seq<u8>, amount: u64 },
    Transfer { rt: int, src: Seq<u8>, dst: Seq<u8>, amount: u64 },
    Validate { rt: int, f: Func, msg: Seq<u8> },
    Act { rt: int, f: Func, envelope: EnvelopeV, msg: Seq<u8>, context: ContextV },
}
/// What was written to the caller's memory.
pub ghost struct Out { pub balance: u64, pub hi: u64, pub lo: u64, pub template: Seq<u8>, pub hash: Seq<u8>, pub layer: u64 }
/// What an exported function passes on to the common ones.
pub ghost struct Asked { pub f: Func, pub rt: int, pub envelope: int, pub msg: int, pub size: u32, pub context: int }
/// The calls made so far, the handles known, the caller's memory.
pub struct World { pub ops: Ghost<Seq<Op>>, pub handles: Ghost<Set<int>>, pub out: Ghost<Map<int, Out>>, pub asked: Ghost<Option<Asked>> }
impl World {
    pub open spec fn did(self, o: World, op: Op) -> bool { self.ops@ == o.ops@.push(op) && self.handles == o.handles && self.out == o.out && self.asked == o.asked }
}
/// Whether the last of those calls succeeded, and what it gave.
pub uninterp spec fn ok(ops: Seq<Op>) -> bool;
pub uninterp spec fn given(ops: Seq<Op>) -> Seq<u8>;
pub uninterp spec fn uncommitted(ops: Seq<Op>, rt: int) -> bool;
pub uninterp spec fn acct(ops: Seq<Op>, rt: int, a: Seq<u8>) -> Option<(u64, u128, Seq<u8>)>;
pub uninterp spec fn layer_of(ops: Seq<Op>, rt: int) -> u64;
pub uninterp spec fn hash_of(ops: Seq<Op>, rt: int) -> Seq<u8>;
/// The caller's bytes.
pub uninterp spec fn input(at: int, n: int) -> Seq<u8>;
#[verifier::external_body]
pub fn caller_bytes<'a>(p: Ptr, n: usize) -> (r: &'a [u8]) ensures r@ == input(p.addr as int, n as int), r@.len() == n { unimplemented!() }
#[verifier::external_body]
pub fn assert_or_panic(b: bool) ensures b { unimplemented!() }
/// Behind the barrier a panic is an error: what matters is what holds when there is none.
#[verifier::external_body]
pub struct Failure { e: u8 }
pub struct Perhaps<T> { pub v: Option<T> }
impl<T> Perhaps<T> {
    #[verifier::external_body]
    pub fn or_panic(self) -> (r: T) ensures self.v == Some(r) { unimplemented!() }
}

// ---------------------------------------------------------------- results
pub struct svm_result_t { pub is_error: bool, pub is_receipt: bool, pub data: Ghost<Seq<u8>> }
impl svm_result_t {
    #[verifier::external_body]
    pub fn ok_value() -> (r: Self) ensures !r.is_error, !r.is_receipt { unimplemented!() }
    #[verifier::external_body]
    pub fn new_error(h: &mut World, d: &[u8]) -> (r: Self) ensures *final(h) == *old(h), r.is_error, !r.is_receipt, r.data@ == d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn new_receipt(h: &mut World, d: &Bytes) -> (r: Self) ensures *final(h) == *old(h), !r.is_error, r.is_receipt, r.data@ == d.b@ { unimplemented!() }
//@fn res FromResidual<Result<Infallible,E>>@svm_result_t::from_residual heap
//@local Result < Infallible , E > ==> Result<(), Failure>
//@local & \(?residual\.unwrap_err \( \)\)?\.to_string \( \)\.as_bytes \( \) ==> residual.unwrap_err().text()
//@local residual\.unwrap_err \( \)\.to_string \( \)\.as_bytes \( \) ==> residual.unwrap_err().text()
//@contract
    requires residual is Err
    ensures *final(h) == *old(h), r.is_error, !r.is_receipt
//@endfn
}
impl Failure {
    #[verifier::external_body]
    pub fn text<'a>(self) -> (r: &'a [u8]) { unimplemented!() }
}
impl core::fmt::Debug for Failure {
    #[verifier::external_body]
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
}
pub struct Bytes { pub b: Ghost<Seq<u8>> }

// ---------------------------------------------------------------- the runtime behind the handle
pub struct Address { pub b: Ghost<Seq<u8>> }
impl Address {
    pub const N: usize = 20;
    #[verifier::external_body]
    pub fn new(b: &[u8]) -> (r: Address) ensures r.b@ == b@ { unimplemented!() }
}
pub struct State { pub b: Ghost<Seq<u8>> }
impl State {
    pub const N: usize = 32;
}
pub struct TemplateAddr { pub b: Ghost<Seq<u8>> }
impl TemplateAddr {
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.b@ { unimplemented!() }
}
pub struct Layer(pub u64);
pub struct Handle { pub addr: usize }
pub struct Tracker { pub t: u8 }
#[verifier::external_body]
pub fn runtime_tracker() -> Tracker { unimplemented!() }
impl Tracker {
    /// The contract of `ResourceTracker::get` (proved in the unit ffi).
    #[verifier::external_body]
    pub fn get(&self, h: &mut World, p: Ptr) -> (r: Perhaps<Handle>)
        ensures *final(h) == *old(h), r.v is Some == old(h).handles@.contains(p.addr as int), r.v matches Some(x) ==> x.addr == p.addr
    { unimplemented!() }
}
impl Handle {
    #[verifier::external_body]
    pub fn commit(&self, h: &mut World) -> (r: Result<(), Failure>)
        ensures final(h).did(*old(h), Op::Commit { rt: self.addr as int }), r is Ok == ok(final(h).ops@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rewind(&self, h: &mut World, l: Layer) -> (r: Result<(), Failure>)
        ensures final(h).did(*old(h), Op::Rewind { rt: self.addr as int, layer: l.0 }), r is Ok == ok(final(h).ops@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create_genesis_account(&self, h: &mut World, a: &Address, name: &str, balance: u64, counter: u128) -> (r: Result<(), Failure>)
        ensures final(h).did(*old(h), Op::Genesis { rt: self.addr as int, addr: a.b@, name: name@, balance, counter }), r is Ok == ok(final(h).ops@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn increase_balance(&self, h: &mut World, a: &Address, amount: u64) -> (r: Result<(), Failure>)
        ensures final(h).did(*old(h), Op::Increase { rt: self.addr as int, addr: a.b@, amount }), r is Ok == ok(final(h).ops@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn transfer(&self, h: &mut World, s: &Address, d: &Address, amount: u64)
        ensures final(h).did(*old(h), Op::Transfer { rt: self.addr as int, src: s.b@, dst: d.b@, amount })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn has_uncommitted_changes(&self, h: &mut World) -> (r: Result<bool, Failure>)
        ensures *final(h) == *old(h), r matches Ok(b) ==> b == uncommitted(old(h).ops@, self.addr as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_account(&self, h: &mut World, a: &Address) -> (r: Perhaps<(u64, u128, TemplateAddr)>)
        ensures *final(h) == *old(h), r.v is Some == acct(old(h).ops@, self.addr as int, a.b@) is Some,
            r.v matches Some(x) ==> acct(old(h).ops@, self.addr as int, a.b@) == Some((x.0, x.1, x.2.b@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn current_layer(&self, h: &mut World) -> (r: (Layer, (State, u8)))
        ensures *final(h) == *old(h), r.0.0 == layer_of(old(h).ops@, self.addr as int), r.1.0.b@ == hash_of(old(h).ops@, self.addr as int)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn write_balance(h: &mut World, at: Ptr, v: u64)
    ensures final(h).ops == old(h).ops, final(h).handles == old(h).handles, final(h).out@ == old(h).out@.insert(at.addr as int, Out { balance: v, ..old(h).out@[at.addr as int] })
{ unimplemented!() }
#[verifier::external_body]
pub fn write_counter_upper_bits(h: &mut World, at: Ptr, v: u64)
    ensures final(h).ops == old(h).ops, final(h).handles == old(h).handles, final(h).out@ == old(h).out@.insert(at.addr as int, Out { hi: v, ..old(h).out@[at.addr as int] })
{ unimplemented!() }
#[verifier::external_body]
pub fn write_counter_lower_bits(h: &mut World, at: Ptr, v: u64)
    ensures final(h).ops == old(h).ops, final(h).handles == old(h).handles, final(h).out@ == old(h).out@.insert(at.addr as int, Out { lo: v, ..old(h).out@[at.addr as int] })
{ unimplemented!() }
#[verifier::external_body]
pub fn write_template_addr(h: &mut World, at: Ptr, v: &[u8])
    ensures final(h).ops == old(h).ops, final(h).handles == old(h).handles, final(h).out@ == old(h).out@.insert(at.addr as int, Out { template: v@, ..old(h).out@[at.addr as int] })
{ unimplemented!() }
#[verifier::external_body]
pub fn write_hash(h: &mut World, at: Ptr, v: &State)
    ensures final(h).ops == old(h).ops, final(h).handles == old(h).handles, final(h).out@ == old(h).out@.insert(at.addr as int, Out { hash: v.b@, ..old(h).out@[at.addr as int] })
{ unimplemented!() }
#[verifier::external_body]
pub fn write_layer(h: &mut World, at: Ptr, v: u64)
    ensures final(h).ops == old(h).ops, final(h).handles == old(h).handles, final(h).out@ == old(h).out@.insert(at.addr as int, Out { layer: v, ..old(h).out@[at.addr as int] })
{ unimplemented!() }

// ---------------------------------------------------------------- what each function does behind its barrier
pub open spec fn joined(hi: u64, lo: u64) -> u128 { (hi as int * 0x1_0000_0000_0000_0000 + lo as int) as u128 }
pub proof fn lemma_join(hi: u64, lo: u64)
    ensures (((hi as u128) << 64) | (lo as u128)) == joined(hi, lo), ((lo as u128) | ((hi as u128) << 64)) == joined(hi, lo),
        ((hi as u128) << 64) + lo == joined(hi, lo), hi * 0x1_0000_0000_0000_0000 + lo == joined(hi, lo), hi * 0x1_0000_0000_0000_0000 <= u128::MAX,
        (((hi as u128) << 64) ^ (lo as u128)) == joined(hi, lo)
{
    let (a, b) = (hi as u128, lo as u128);
    assert((a << 64u128) == mul(a, 0x1_0000_0000_0000_0000u128)) by (bit_vector) requires a <= 0xffff_ffff_ffff_ffffu128;
    assert((b | (a << 64u128)) == ((a << 64u128) | b)) by (bit_vector);
    assert(((a << 64u128) ^ b) == ((a << 64u128) | b)) by (bit_vector) requires a <= 0xffff_ffff_ffff_ffffu128, b <= 0xffff_ffff_ffff_ffffu128;
    assert(((a << 64u128) | b) == add(mul(a, 0x1_0000_0000_0000_0000u128), b)) by (bit_vector) requires a <= 0xffff_ffff_ffff_ffffu128, b <= 0xffff_ffff_ffff_ffffu128;
    assert(a * 0x1_0000_0000_0000_0000 + b <= u128::MAX) by (nonlinear_arith) requires a <= 0xffff_ffff_ffff_ffff, b <= 0xffff_ffff_ffff_ffff;
}
pub proof fn lemma_split(c: u128)
    ensures joined((c >> 64) as u64, c as u64) == c, (c & 0xffff_ffff_ffff_ffff) as u64 == c as u64, (c / 0x1_0000_0000_0000_0000) as u64 == (c >> 64) as u64,
        (c % 0x1_0000_0000_0000_0000) as u64 == c as u64
{
    assert((c & 0xffff_ffff_ffff_ffff) as u64 == c as u64) by (bit_vector);
    assert((c / 0x1_0000_0000_0000_0000) as u64 == (c >> 64) as u64) by (bit_vector);
    assert((c % 0x1_0000_0000_0000_0000) as u64 == c as u64) by (bit_vector);
    lemma_join((c >> 64) as u64, c as u64);
    assert(((((c >> 64u128) as u64) as u128) << 64u128 | ((c as u64) as u128)) == c) by (bit_vector);
}
//@item api struct:svm_account
impl svm_account {
//@fn api svm_account::counter
//@contract
    ensures r == joined(self.counter_upper_bits, self.counter_lower_bits)
//@begin
    proof { lemma_join(self.counter_upper_bits, self.counter_lower_bits); }
//@endfn
}
//@fn api get_runtime heap
//@contract
    ensures *final(h) == *old(h), r.addr == runtime_ptr.addr, old(h).handles@.contains(r.addr as int)
//@endfn
//@fn api svm_commit::guarded heap as=svm_commit_guarded
//@contract
    ensures old(h).handles@.contains(runtime_ptr.addr as int), final(h).did(*old(h), Op::Commit { rt: runtime_ptr.addr as int }), r.is_error == !ok(final(h).ops@)
//@endfn
//@fn api svm_rewind::guarded heap as=svm_rewind_guarded
//@contract
    ensures old(h).handles@.contains(runtime_ptr.addr as int), final(h).did(*old(h), Op::Rewind { rt: runtime_ptr.addr as int, layer: layer_id }), r.is_error == !ok(final(h).ops@)
//@endfn
//@fn api svm_transfer::guarded heap as=svm_transfer_guarded
//@contract
    ensures old(h).handles@.contains(runtime_ptr.addr as int), !r.is_error,
        final(h).did(*old(h), Op::Transfer { rt: runtime_ptr.addr as int, src: input(src_addr.addr as int, 20), dst: input(dst_addr.addr as int, 20), amount })
//@endfn
//@fn api svm_increase_balance::guarded heap as=svm_increase_balance_guarded
//@contract
    ensures old(h).handles@.contains(runtime_ptr.addr as int), r.is_error == !ok(final(h).ops@),
        final(h).did(*old(h), Op::Increase { rt: runtime_ptr.addr as int, addr: input(addr.addr as int, 20), amount: additional_balance })
//@endfn
//@fn api svm_create_genesis_account::guarded heap as=svm_create_genesis_account_guarded
//@contract
    ensures old(h).handles@.contains(runtime_ptr.addr as int), r.is_error == !ok(final(h).ops@),
        final(h).did(*old(h), Op::Genesis { rt: runtime_ptr.addr as int, addr: input(addr.addr as int, 20), name: ""@, balance, counter: joined(counter_upper_bits, counter_lower_bits) })
//@begin
    proof { lemma_join(counter_upper_bits, counter_lower_bits); }
//@endfn
//@fn api svm_uncommitted_changes::guarded heap as=svm_uncommitted_changes_guarded
//@local has_uncommitted_changes \( \) ==> has_uncommitted_changes(h)
//@contract
    ensures old(h).handles@.contains(runtime_ptr.addr as int), *final(h) == *old(h), uncommitted(old(h).ops@, runtime_ptr.addr as int) ==> r.is_error
//@endfn
//@fn api svm_get_account::guarded heap as=svm_get_account_guarded
//@local \.get_account \( ==> .get_account(h, 
//@local \( \* account \)\.(balance|counter_upper_bits|counter_lower_bits) = ([^;]*); ==> write_\1(h, account, \2);
//@local \( \* account \)\.template_addr\.clone_from_slice \( ==> write_template_addr(h, account, 
//@contract
    ensures old(h).handles@.contains(runtime_ptr.addr as int), final(h).ops == old(h).ops, !r.is_error,
        acct(old(h).ops@, runtime_ptr.addr as int, input(account_addr.addr as int, 20)) is Some,
        acct(old(h).ops@, runtime_ptr.addr as int, input(account_addr.addr as int, 20)) matches Some(x)
            && final(h).out@[account.addr as int].balance == x.0 && joined(final(h).out@[account.addr as int].hi, final(h).out@[account.addr as int].lo) == x.1
            && final(h).out@[account.addr as int].template == x.2
//@begin
    proof { let x = acct(h.ops@, runtime_ptr.addr as int, input(account_addr.addr as int, 20)); if x is Some { lemma_split(x->Some_0.1); } }
//@endfn
//@fn api svm_layer_info::guarded heap as=svm_layer_info_guarded
//@local \.current_layer \( \) ==> .current_layer(h)
//@local let (\w+) = slice :: from_raw_parts_mut \( hash , State :: N \) ; ==> 
//@local slice\.clone_from_slice \( & state_hash\.0 \) ==> write_hash(h, hash, &state_hash.0)
//@local \* layer = ([^;]*); ==> write_layer(h, layer, \1);
//@contract
    requires hash.addr != layer.addr
    ensures old(h).handles@.contains(runtime_ptr.addr as int), final(h).ops == old(h).ops, !r.is_error,
        final(h).out@[hash.addr as int].hash == hash_of(old(h).ops@, runtime_ptr.addr as int), final(h).out@[layer.addr as int].layer == layer_of(old(h).ops@, runtime_ptr.addr as int)
//@endfn

// ---------------------------------------------------------------- transactions
/// The operation that an exported function asks for.
#[derive(Clone, Copy)]
pub struct Func { pub f: u8 }
pub ghost struct EnvelopeV { pub of: Seq<u8> }
pub ghost struct ContextV { pub of: Seq<u8> }
pub struct Envelope { pub v: Ghost<EnvelopeV> }
pub struct Context { pub v: Ghost<ContextV> }
pub uninterp spec fn envelope_size() -> usize;
pub uninterp spec fn context_size() -> usize;
impl Envelope {
    #[verifier::external_body]
    pub fn fixed_size() -> (r: Perhaps<usize>) ensures r.v matches Some(n) ==> n == envelope_size() { unimplemented!() }
    #[verifier::external_body]
    pub fn decode_bytes(b: &[u8]) -> (r: Result<Envelope, Failure>) ensures r matches Ok(x) ==> x.v@.of == b@ { unimplemented!() }
}
impl Context {
    #[verifier::external_body]
    pub fn fixed_size() -> (r: Perhaps<usize>) ensures r.v matches Some(n) ==> n == context_size() { unimplemented!() }
    #[verifier::external_body]
    pub fn decode_bytes(b: &[u8]) -> (r: Result<Context, Failure>) ensures r matches Ok(x) ==> x.v@.of == b@ { unimplemented!() }
}
#[verifier::external_body]
pub struct Receipt { r: u8 }
impl Receipt {
    pub uninterp spec fn enc(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn encode_to_vec(&self) -> (r: Bytes) ensures r.b@ == self.enc() { unimplemented!() }
}
impl Func {
    #[verifier::external_body]
    pub fn act(self, h: &mut World, rt: Handle, e: &Envelope, m: &[u8], c: &Context) -> (r: Receipt)
        ensures final(h).did(*old(h), Op::Act { rt: rt.addr as int, f: self, envelope: e.v@, msg: m@, context: c.v@ }), r.enc() == given(final(h).ops@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn validate(self, h: &mut World, rt: Handle, m: &[u8]) -> (r: Result<(), Failure>)
        ensures final(h).did(*old(h), Op::Validate { rt: rt.addr as int, f: self, msg: m@ }), r is Ok == ok(final(h).ops@)
    { unimplemented!() }
}
//@fn api svm_runtime_action::guarded heap as=svm_runtime_action_guarded
//@local < F , C > ==> 
//@local where F :[^\x01]* ==> 
//@local f : F ==> f: Func
//@local \bf \( ==> f.act(h, 
//@local & message ==> message
//@contract
    ensures old(h).handles@.contains(runtime_ptr.addr as int),
        // no call and an error, or the call asked for, with the caller's bytes, and its receipt
        final(h).ops@ == old(h).ops@ && r.is_error
            || !r.is_error && r.is_receipt && r.data@ == given(final(h).ops@) && final(h).did(*old(h), Op::Act { rt: runtime_ptr.addr as int, f, envelope: EnvelopeV { of: input(envelope.addr as int, envelope_size() as int) },
                msg: input(message.addr as int, message_size as int), context: ContextV { of: input(context.addr as int, context_size() as int) } })
//@endfn
//@fn api svm_validate::guarded heap as=svm_validate_guarded
//@local < F > ==> 
//@local where F :[^\x01]* ==> 
//@local validate_f : F ==> validate_f: Func
//@local \bvalidate_f \( ==> validate_f.validate(h, 
//@local e\.to_string \( \)\.as_bytes \( \) ==> e.text()
//@contract
    ensures old(h).handles@.contains(runtime_ptr.addr as int), r.is_error == !ok(final(h).ops@),
        final(h).did(*old(h), Op::Validate { rt: runtime_ptr.addr as int, f: validate_f, msg: input(message.addr as int, message_size as int) })
//@endfn

// ---------------------------------------------------------------- who asks for what
pub open spec fn deploy_func() -> Func { Func { f: 0 } }
pub open spec fn spawn_func() -> Func { Func { f: 1 } }
pub open spec fn verify_func() -> Func { Func { f: 2 } }
pub open spec fn call_func() -> Func { Func { f: 3 } }
pub open spec fn validate_deploy_func() -> Func { Func { f: 4 } }
pub open spec fn validate_spawn_func() -> Func { Func { f: 5 } }
pub open spec fn validate_call_func() -> Func { Func { f: 6 } }
impl Func {
    pub fn deploy() -> (r: Func) ensures r == deploy_func() { Func { f: 0 } }
    pub fn spawn() -> (r: Func) ensures r == spawn_func() { Func { f: 1 } }
    pub fn verify() -> (r: Func) ensures r == verify_func() { Func { f: 2 } }
    pub fn call() -> (r: Func) ensures r == call_func() { Func { f: 3 } }
    pub fn validate_deploy() -> (r: Func) ensures r == validate_deploy_func() { Func { f: 4 } }
    pub fn validate_spawn() -> (r: Func) ensures r == validate_spawn_func() { Func { f: 5 } }
    pub fn validate_call() -> (r: Func) ensures r == validate_call_func() { Func { f: 6 } }
}
pub uninterp spec fn refused(a: Option<Asked>) -> bool;
/// The common functions run the bodies above behind the barrier (proved in the unit ffi).
#[verifier::external_body]
pub fn svm_runtime_action(h: &mut World, rt: Ptr, e: Ptr, m: Ptr, n: u32, c: Ptr, f: Func, name: &str) -> (r: svm_result_t)
    ensures final(h).asked@ == Some(Asked { f, rt: rt.addr as int, envelope: e.addr as int, msg: m.addr as int, size: n, context: c.addr as int }), r.is_error == refused(final(h).asked@)
{ unimplemented!() }
#[verifier::external_body]
pub fn svm_validate(h: &mut World, rt: Ptr, m: Ptr, n: u32, f: Func, name: &str) -> (r: svm_result_t)
    ensures final(h).asked@ == Some(Asked { f, rt: rt.addr as int, envelope: 0, msg: m.addr as int, size: n, context: 0 }), r.is_error == refused(final(h).asked@)
{ unimplemented!() }
//@fn api svm_deploy heap
//@contract
    ensures final(h).asked@ == Some(Asked { f: deploy_func(), rt: runtime.addr as int, envelope: envelope.addr as int, msg: message.addr as int, size: message_size, context: context.addr as int }), r.is_error == refused(final(h).asked@)
//@endfn
//@fn api svm_spawn heap
//@contract
    ensures final(h).asked@ == Some(Asked { f: spawn_func(), rt: runtime.addr as int, envelope: envelope.addr as int, msg: message.addr as int, size: message_size, context: context.addr as int }), r.is_error == refused(final(h).asked@)
//@endfn
//@fn api svm_verify heap
//@contract
    ensures final(h).asked@ == Some(Asked { f: verify_func(), rt: runtime.addr as int, envelope: envelope.addr as int, msg: message.addr as int, size: message_size, context: context.addr as int }), r.is_error == refused(final(h).asked@)
//@endfn
//@fn api svm_call heap
//@contract
    ensures final(h).asked@ == Some(Asked { f: call_func(), rt: runtime.addr as int, envelope: envelope.addr as int, msg: message.addr as int, size: message_size, context: context.addr as int }), r.is_error == refused(final(h).asked@)
//@endfn
//@fn api svm_validate_deploy heap
//@contract
    ensures final(h).asked@ == Some(Asked { f: validate_deploy_func(), rt: runtime.addr as int, envelope: 0, msg: message.addr as int, size: message_size, context: 0 }), r.is_error == refused(final(h).asked@)
//@endfn
//@fn api svm_validate_spawn heap
//@contract
    ensures final(h).asked@ == Some(Asked { f: validate_spawn_func(), rt: runtime.addr as int, envelope: 0, msg: message.addr as int, size: message_size, context: 0 }), r.is_error == refused(final(h).asked@)
//@endfn
//@fn api svm_validate_call heap
//@contract
    ensures final(h).asked@ == Some(Asked { f: validate_call_func(), rt: runtime.addr as int, envelope: 0, msg: message.addr as int, size: message_size, context: 0 }), r.is_error == refused(final(h).asked@)
//@endfn
} // verus!
fn main() {}
