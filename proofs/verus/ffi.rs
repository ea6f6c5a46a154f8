#![allow(non_camel_case_types)]
use vstd::prelude::*;
//@src res crates/host/runtime-ffi/src/result.rs
//@src trk crates/host/runtime-ffi/src/resource_tracker.rs
//@src api crates/host/runtime-ffi/src/c_api.rs
//@only crates/host/runtime-ffi/src/c_api.rs extern "C" fn (\w+) : svm_init svm_free_result svm_runtime_create svm_runtime_destroy svm_runtimes_count svm_validate_deploy svm_validate_spawn svm_validate_call svm_deploy svm_spawn svm_verify svm_call svm_uncommitted_changes svm_layer_info svm_rewind svm_commit svm_get_account svm_create_genesis_account svm_increase_balance svm_transfer
//@heap h : &mut Mem : new_error new_receipt receipt clone drop_impl leak from_raw_parts catch_unwind catch_unwind_or_fail svm_validate svm_runtime_action get_runtime count free alloc
//@sub \* (mut|const) \* (mut|const) c_void ==> Ptr
//@sub \* (mut|const) (u8|u64|c_void|svm_account) ==> Ptr
//@sub std :: ptr :: null_mut \( \) ==> Ptr::null()
//@sub \bptr as (u\w+) ==> ptr.addr as \1
//@sub Vec :: with_capacity ==> Buf::with_capacity
//@sub Vec :: new ==> Buf::new
//@sub Vec :: from_raw_parts ==> Buf::from_raw_parts
//@sub (std :: )?slice :: from_raw_parts \( ==> bytes_at(
//@sub std :: panic :: catch_unwind \( ==> catch_unwind(
//@sub (\w+)\.len \( \)\.try_into \( \)\.unwrap \( \) ==> to_u32(\1.len())
//@sub (\w+)\.len \( \) as u32 ==> cut_u32(\1.len())
//@sub (svm_result_t|Self) :: OK ==> svm_result_t::ok_value()
//@sub \| \w+(?:\s*,\s*\w+)* \| [^;|]*? , ("svm_\w+") ==> guarded(), \1
//@sub RUNTIME_TRACKER\. ==> runtime_tracker().
//@sub INITIALIZED\.lock \( \) ==> lock_initialized()
//@sub self\.pointers\.lock \( \)\.unwrap \( \)\.len \( \) ==> self.locked_len(h)
//@sub self\.pointers\.lock \( \)\.unwrap \( \)\.insert \( ==> self.locked_insert(h, 
//@sub self\.pointers\.lock \( \)\.unwrap \( \)\.remove \( ==> self.locked_remove(h, 
//@sub self\.pointers\.lock \( \)\.unwrap \( \)\.contains \( ==> self.locked_contains(h, 
//@sub self\.pointers\.lock \( \)\.unwrap \( \) ; ==> self.hold(h);
//@sub lock\.(contains|insert|remove) \( ==> self.locked_\1(h, 
//@sub lock\.len \( \) ==> self.locked_len(h)
//@sub Box :: leak \( h , (\w+) \) as \* mut _ as Ptr ==> leak_box(h, \1)
//@sub Box :: leak \( h , Box :: < T > :: from_raw \((\w+)\.cast \( \)\)\) ==> reborrow(h, \1)
//@sub drop \( unsafe \{ Box :: < T > :: from_raw \((\w+)\.cast \( \)\) \} \) ==> free_box(h, \1)
//@sub drop \( lock \) ==> release(h)
//@sub Option < & 'static mut T > ==> Option<Borrowed>
//@sub (\w+)\.to_vec \( \) ==> to_vec(\1)
//@sub Self :: (new_error|new_receipt) \( h , (unsafe \{[^{}]*\}) \) ==> { let __a = \2; Self::\1(h, __a) }
//@sub std :: str :: from_utf8 ==> from_utf8
//@sub \bArc :: new ==> std::sync::Arc::new
verus! {
global size_of usize == 8;

/// A buffer as the allocator knows it: what it holds and the size it was asked for.
pub ghost struct Cell { pub bytes: Seq<u8>, pub cap: int }
/// The process: the live buffers, the live runtimes, the handles the tracker knows and the handles given to callers.
pub struct Mem { pub live: Ghost<Map<int, Cell>>, pub boxed: Ghost<Set<int>>, pub handles: Ghost<Set<int>>, pub out: Ghost<Map<int, int>> }
#[derive(Clone, Copy)]
pub struct Ptr { pub addr: usize }
impl Ptr {
    pub fn null() -> (r: Ptr) ensures r.addr == 0 { Ptr { addr: 0 } }
    pub fn is_null(&self) -> (r: bool) ensures r == (self.addr == 0) { self.addr == 0 }
}
/// A byte vector with its capacity.
#[verifier::external_body]
pub struct Buf { v: Vec<u8> }
impl Buf {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn cap(&self) -> int;
    /// std: the capacity of a byte vector is what was asked for, as long as that suffices
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Buf) ensures r.bytes() == Seq::<u8>::empty(), r.cap() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Buf) ensures r.bytes() == Seq::<u8>::empty(), r.cap() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, x: &[u8])
        ensures final(self).bytes() == old(self).bytes() + x@, final(self).cap() >= final(self).bytes().len(), old(self).bytes().len() + x@.len() <= old(self).cap() ==> final(self).cap() == old(self).cap()
    { unimplemented!() }
    /// The buffer goes on living, without an owner (nothing is allocated for a capacity of zero).
    #[verifier::external_body]
    pub fn leak(self, h: &mut Mem) -> (r: Leaked)
        ensures r.p.addr != 0, final(h).rest_as(*old(h)),
            self.cap() == 0 ==> final(h).live@ == old(h).live@,
            self.cap() != 0 ==> !old(h).live@.contains_key(r.p.addr as int) && final(h).live@ == old(h).live@.insert(r.p.addr as int, Cell { bytes: self.bytes(), cap: self.cap() })
    { unimplemented!() }
    /// An owner again: it frees the buffer when it goes out of scope, which is where the buffer stops being live.
    #[verifier::external_body]
    pub fn from_raw_parts(h: &mut Mem, p: Ptr, len: usize, cap: usize) -> (r: Buf)
        requires p.addr != 0, cap == 0 || old(h).live@.contains_key(p.addr as int) && old(h).live@[p.addr as int].cap == cap, len <= cap
        ensures r.bytes() == if cap == 0 { Seq::<u8>::empty() } else { old(h).live@[p.addr as int].bytes.take(len as int) }, final(h).rest_as(*old(h)), cap == 0 ==> final(h).live@ == old(h).live@, cap != 0 ==> final(h).live@ == old(h).live@.remove(p.addr as int)
    { unimplemented!() }
}
pub struct Leaked { pub p: Ptr }
impl Leaked {
    pub fn as_mut_ptr(self) -> (r: Ptr) ensures r == self.p { self.p }
}
#[verifier::external_body]
pub fn bytes_at<'a>(h: &mut Mem, p: Ptr, len: usize) -> (r: &'a [u8])
    requires p.addr != 0, len == 0 || old(h).live@.contains_key(p.addr as int) && len <= old(h).live@[p.addr as int].bytes.len()
    ensures *final(h) == *old(h), r@ == if len == 0 { Seq::<u8>::empty() } else { old(h).live@[p.addr as int].bytes.take(len as int) }
{ unimplemented!() }
#[verifier::external_body]
pub fn to_vec(s: &[u8]) -> (r: Buf) ensures r.bytes() == s@, r.cap() == s.len() { unimplemented!() }
#[verifier::external_body]
pub fn to_u32(n: usize) -> (r: u32) requires n <= u32::MAX ensures r == n { unimplemented!() }
#[verifier::external_body]
pub fn cut_u32(n: usize) -> (r: u32) ensures n <= u32::MAX ==> r == n { unimplemented!() }
#[verifier::external_body]
pub fn rt_assert(b: bool) requires b { unimplemented!() }
#[verifier::external_body]
pub fn rt_panic<T>() -> T requires false { unimplemented!() }

impl Mem {
    pub open spec fn rest_as(self, o: Mem) -> bool { self.boxed == o.boxed && self.handles == o.handles && self.out == o.out }
    /// Every handle is that of a live runtime, and every live runtime has its handle.
    pub open spec fn wf(self) -> bool { self.handles@ == self.boxed@ }
}

// ---------------------------------------------------------------- results
//@item res struct:svm_result_t
impl svm_result_t {
    /// The buffer, when there is one.
    pub open spec fn at(self) -> int { if self.error.addr != 0 { self.error.addr as int } else { self.receipt.addr as int } }
    pub open spec fn none(self) -> bool { self.error.addr == 0 && self.receipt.addr == 0 }
    /// It holds one buffer at most, which is live, of the stated size and freed with the size it was allocated with.
    pub open spec fn owns(self, h: Mem) -> bool {
        &&& (self.error.addr == 0 || self.receipt.addr == 0)
        &&& (self.none() ==> self.buf_size == 0)
        &&& (self.buf_size != 0 ==> h.live@.contains_key(self.at()) && h.live@[self.at()].cap == self.buf_size && h.live@[self.at()].bytes.len() == self.buf_size)
    }
    pub open spec fn bytes(self, h: Mem) -> Seq<u8> { if self.buf_size == 0 { Seq::empty() } else { h.live@[self.at()].bytes } }
    /// Its buffer, and nothing else, is new.
    pub open spec fn fresh(self, o: Mem, h: Mem) -> bool {
        h.rest_as(o) && if self.buf_size == 0 { h.live@ == o.live@ } else { !o.live@.contains_key(self.at()) && h.live@.dom() == o.live@.dom().insert(self.at()) && forall|a: int| #[trigger] o.live@.contains_key(a) ==> h.live@[a] == o.live@[a] }
    }
    /// Its buffer, and nothing else, is gone.
    pub open spec fn gone(self, o: Mem, h: Mem) -> bool { h.rest_as(o) && h.live@ == if self.buf_size == 0 { o.live@ } else { o.live@.remove(self.at()) } }
    /// `svm_result_t::OK`
    pub fn ok_value() -> (r: Self) ensures r.none(), r.buf_size == 0 { svm_result_t { receipt: Ptr::null(), error: Ptr::null(), buf_size: 0 } }
//@fn res svm_result_t::new_error heap
//@contract
    requires data@.len() <= u32::MAX
    ensures r.owns(*final(h)), r.fresh(*old(h), *final(h)), r.error.addr != 0, r.bytes(*final(h)) == data@, r.buf_size == data@.len()
//@end
    proof { assert(new_data_is(__result, *h, data@)); assert(__result.bytes(*h) =~= data@); assert(Seq::<u8>::empty() + data@ =~= data@); assert(__result.buf_size != 0 ==> h.live@.dom() =~= old(h).live@.dom().insert(__result.at())); }
//@endfn
//@fn res svm_result_t::new_receipt heap
//@contract
    requires data@.len() <= u32::MAX
    ensures r.owns(*final(h)), r.fresh(*old(h), *final(h)), r.receipt.addr != 0, r.bytes(*final(h)) == data@, r.buf_size == data@.len()
//@end
    proof { assert(new_data_is(__result, *h, data@)); assert(__result.bytes(*h) =~= data@); assert(Seq::<u8>::empty() + data@ =~= data@); assert(__result.buf_size != 0 ==> h.live@.dom() =~= old(h).live@.dom().insert(__result.at())); }
//@endfn
//@fn res svm_result_t::receipt heap
//@contract
    requires self.owns(*old(h))
    ensures *final(h) == *old(h), r is Some == (self.receipt.addr != 0), r matches Some(x) ==> x@ == self.bytes(*old(h))
//@end
    proof { if __result is Some { assert(__result->Some_0@ =~= self.bytes(*old(h))); } }
//@endfn
//@fn res svm_result_t::is_ok
//@contract
    ensures r == (self.error.addr == 0)
//@endfn
//@fn res svm_result_t::is_err
//@contract
    ensures r == (self.error.addr != 0)
//@endfn
//@fn res Drop@svm_result_t::drop heap as=drop_impl
//@local & mut self ==> &self
//@contract
    requires self.owns(*old(h))
    ensures self.gone(*old(h), *final(h))
//@endfn
//@fn res svm_result_t::unwrap heap
//@local rt_panic \( \) ; ==> rt_panic()
//@local Option < Vec < u8 > > ==> Option<Buf>
//@contract
    requires self.owns(*old(h)), self.error.addr == 0
    ensures self.gone(*old(h), *final(h)), r is Some == (self.receipt.addr != 0), r matches Some(x) ==> x.bytes() == self.bytes(*old(h))
//@end
    self.drop_impl(h);
//@endfn
//@fn res Clone@svm_result_t::clone heap
//@contract
    requires self.owns(*old(h))
    ensures r.owns(*final(h)), self.owns(*final(h)), r.fresh(*old(h), *final(h)), r.bytes(*final(h)) == self.bytes(*old(h)), self.bytes(*final(h)) == self.bytes(*old(h)),
        r.error.addr == 0 <==> self.error.addr == 0, r.receipt.addr == 0 <==> self.receipt.addr == 0
//@end
    proof { assert(__result.bytes(*h) =~= self.bytes(*old(h))); }
//@endfn
}
pub open spec fn new_data_is(r: svm_result_t, h: Mem, d: Seq<u8>) -> bool { true }

// ---------------------------------------------------------------- runtimes
pub struct ResourceTracker<T> { pub p: core::marker::PhantomData<T> }
pub struct Borrowed { pub addr: usize }
pub struct Guard { pub g: Ghost<int> }
#[verifier::external_body]
pub fn leak_box<T>(h: &mut Mem, b: Box<T>) -> (r: Ptr)
    ensures r.addr != 0, !old(h).boxed@.contains(r.addr as int), final(h).boxed@ == old(h).boxed@.insert(r.addr as int), final(h).handles == old(h).handles, final(h).live == old(h).live, final(h).out == old(h).out
{ unimplemented!() }
/// The runtime behind the pointer: it has to be alive.
#[verifier::external_body]
pub fn reborrow(h: &mut Mem, p: Ptr) -> (r: Borrowed) requires old(h).boxed@.contains(p.addr as int) ensures *final(h) == *old(h), r.addr == p.addr { unimplemented!() }
/// Destroys the runtime: it has to be alive.
#[verifier::external_body]
pub fn free_box(h: &mut Mem, p: Ptr)
    requires old(h).boxed@.contains(p.addr as int)
    ensures final(h).boxed@ == old(h).boxed@.remove(p.addr as int), final(h).handles == old(h).handles, final(h).live == old(h).live, final(h).out == old(h).out
{ unimplemented!() }
#[verifier::external_body]
pub fn release(h: &mut Mem) ensures *final(h) == *old(h) { unimplemented!() }
/// `lock().unwrap()`: never poisoned, because no holder panics (every function that takes it is proved here).
impl<T> ResourceTracker<T> {
    #[verifier::external_body]
    pub fn hold(&self, h: &mut Mem) -> (r: Guard) ensures *final(h) == *old(h) { unimplemented!() }
    #[verifier::external_body]
    pub fn locked_len(&self, h: &mut Mem) -> (r: usize) ensures *final(h) == *old(h), r == old(h).handles@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn locked_contains(&self, h: &mut Mem, a: &usize) -> (r: bool) ensures *final(h) == *old(h), r == old(h).handles@.contains(*a as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn locked_insert(&self, h: &mut Mem, a: usize) -> (r: bool)
        ensures final(h).handles@ == old(h).handles@.insert(a as int), final(h).boxed == old(h).boxed, final(h).live == old(h).live, final(h).out == old(h).out, r == !old(h).handles@.contains(a as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn locked_remove(&self, h: &mut Mem, a: &usize) -> (r: bool)
        ensures final(h).handles@ == old(h).handles@.remove(*a as int), final(h).boxed == old(h).boxed, final(h).live == old(h).live, final(h).out == old(h).out, r == old(h).handles@.contains(*a as int)
    { unimplemented!() }
//@fn trk ResourceTracker::count heap
//@contract
    requires old(h).wf()
    ensures *final(h) == *old(h), r == old(h).handles@.len()
//@endfn
//@fn trk ResourceTracker::get heap
//@contract
    requires old(h).wf()
    ensures final(h).handles == old(h).handles, final(h).boxed == old(h).boxed, final(h).live == old(h).live, final(h).out == old(h).out, r is Some == old(h).handles@.contains(ptr.addr as int), r matches Some(x) ==> x.addr == ptr.addr
//@endfn
//@fn trk ResourceTracker::alloc heap
//@contract
    requires old(h).wf()
    ensures final(h).handles@ == old(h).handles@.insert(r.addr as int), final(h).handles@ == final(h).boxed@, final(h).live == old(h).live, final(h).out == old(h).out, !old(h).handles@.contains(r.addr as int), r.addr != 0
//@end
    proof { assert(h.handles@ =~= h.boxed@); }
//@endfn
//@fn trk ResourceTracker::free heap
//@contract
    requires old(h).wf()
    ensures final(h).handles@ == old(h).handles@.remove(ptr.addr as int), final(h).handles@ == final(h).boxed@, final(h).live == old(h).live, final(h).out == old(h).out, r is Some == old(h).handles@.contains(ptr.addr as int)
//@end
    proof { assert(h.handles@ =~= h.boxed@); }
//@endfn
}

// ---------------------------------------------------------------- the exported functions
#[verifier::external_body]
pub struct Runtime { r: u8 }
#[verifier::external_body]
pub fn runtime_tracker() -> (r: ResourceTracker<Runtime>) { unimplemented!() }
#[verifier::external_body]
pub struct Poison { r: u8 }
impl core::fmt::Debug for Poison {
    #[verifier::external_body]
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
}
impl Poison {
    #[verifier::external_body]
    pub fn into_inner(self) -> Box<bool> { unimplemented!() }
}
/// May be poisoned: whoever holds this lock is not under contract.
#[verifier::external_body]
pub fn lock_initialized() -> (r: Result<Box<bool>, Poison>) { unimplemented!() }
#[verifier::external_body]
pub fn store(h: &mut Mem, at: Ptr, p: Ptr)
    ensures final(h).live == old(h).live, final(h).boxed == old(h).boxed, final(h).handles == old(h).handles, final(h).out@ == old(h).out@.insert(at.addr as int, p.addr as int)
{ unimplemented!() }
// What it takes to make a runtime: any of it may panic, behind the barrier, before the tracker knows of it.
#[verifier::external_body]
pub fn is_initialized() -> bool { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Perhaps<T> { t: T }
impl<T> Perhaps<T> {
    #[verifier::external_body]
    pub fn unwrap(self) -> T { unimplemented!() }
    #[verifier::external_body]
    pub fn expect(self, m: &str) -> T { unimplemented!() }
}
#[verifier::external_body]
pub fn caller_bytes(p: Ptr, n: usize) -> Vec<u8> { unimplemented!() }
#[verifier::external_body]
pub fn from_utf8(b: Vec<u8>) -> Perhaps<String> { unimplemented!() }
#[verifier::external_body]
pub struct GenesisConfig { g: u8 }
impl GenesisConfig {
    #[verifier::external_body]
    pub fn mainnet() -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct TokioRuntime { g: u8 }
impl TokioRuntime {
    #[verifier::external_body]
    pub fn new() -> Perhaps<Self> { unimplemented!() }
}
#[verifier::external_body]
pub struct GlobalState { g: u8 }
impl GlobalState {
    #[verifier::external_body]
    pub fn in_memory(g: GenesisConfig) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn new(p: String, g: GenesisConfig) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct PriceResolverRegistry { g: u8 }
impl PriceResolverRegistry {
    #[verifier::external_body]
    pub fn default() -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct TemplatePriceCache { g: u8 }
impl TemplatePriceCache {
    #[verifier::external_body]
    pub fn new(r: PriceResolverRegistry) -> Self { unimplemented!() }
}
impl Runtime {
    #[verifier::external_body]
    pub fn new(t: std::sync::Arc<TokioRuntime>, g: GlobalState, c: TemplatePriceCache) -> Self { unimplemented!() }
}
/// What runs behind the panic barrier.
#[verifier::external_body]
pub struct Guarded { g: u8 }
#[verifier::external_body]
pub fn guarded() -> Guarded { unimplemented!() }
#[verifier::external_body]
pub struct Payload { g: u8 }
/// std::panic::catch_unwind: nothing unwinds out of it. A result, when there is one, was made by the constructors above.
#[verifier::external_body]
pub fn catch_unwind(h: &mut Mem, f: Guarded) -> (r: Result<svm_result_t, Payload>)
    ensures r matches Ok(x) ==> x.owns(*final(h)) && outcome(f) == Some(x), r is Err ==> outcome(f) is None
{ unimplemented!() }
/// What the guarded code gives: a result, or nothing if it panics.
pub uninterp spec fn outcome(f: Guarded) -> Option<svm_result_t>;
/// The report of a panic: a fixed text and `Any { .. }`.
#[verifier::external_body]
pub fn panic_text<'a>(e: &'a Payload) -> (r: &'a [u8]) ensures r@.len() <= 65536 { unimplemented!() }
/// Running it outside the barrier would let its panics out.
#[verifier::external_body]
pub fn run_guarded<A>(a: A) requires false { unimplemented!() }

//@fn api catch_unwind_or_fail heap
//@local < F > ==> 
//@local where F :[^\x01]* ==> 
//@local f : F ==> f: Guarded
//@local catch_unwind \( (h , )?f \)\.unwrap_or_else \(\| e \| \{([\s\S]*?)\}\); ==> catch_unwind(h, f); let __result = match __result { Ok(__v) => __v, Err(e) => {\2} };
//@local __fmt_catch_unwind_or_fail_0 \( & \( e \) \)\.as_bytes \( \) ==> panic_text(&e)
//@contract
    ensures r.owns(*final(h)), outcome(f) matches Some(x) ==> r == x, outcome(f) is None ==> r.error.addr != 0
//@endfn
//@fn api svm_validate heap
//@local < F > ==> 
//@local where F :[^\x01]* ==> 
//@local validate_f : F ==> validate_f: Guarded
//@local validate_f \( ==> run_guarded((
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_runtime_action heap
//@local < F , C > ==> 
//@local where F :[^\x01]* ==> 
//@local f : F ==> f: Guarded
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_init
//@local INITIALIZED\.lock \( \)\.unwrap_or_else \(\| e \| ([^;]*)\); ==> match lock_initialized() { Ok(__v) => __v, Err(e) => \1 };
//@contract
    ensures r.none(), r.buf_size == 0
//@endfn
//@fn api svm_free_result heap
//@contract
    requires _result.owns(*old(h))
    ensures _result.gone(*old(h), *final(h))
//@end
    _result.drop_impl(h);
//@endfn
//@fn api svm_runtimes_count heap
//@contract
    requires old(h).wf()
    ensures r == old(h).handles@.len()
//@endfn
//@fn api svm_runtime_create::guarded heap as=svm_runtime_create_guarded
//@local \* INITIALIZED\.lock \( \)\.unwrap \( \) ==> is_initialized()
//@local (std :: )?slice :: from_raw_parts \( h , path ==> caller_bytes(path
//@local \* runtime_ptr = (.*?); ==> let __p = \1; store(h, runtime_ptr, __p);
//@contract
    requires old(h).wf()
    ensures r.owns(*final(h)), final(h).wf(),
        // either a new runtime, whose handle is what the caller gets, or an error and none
        r.error.addr == 0 ==> exists|a: int| a != 0 && !old(h).handles@.contains(a) && final(h).handles@ == old(h).handles@.insert(a) && final(h).out@ == old(h).out@.insert(runtime_ptr.addr as int, a),
        r.error.addr != 0 ==> final(h).handles == old(h).handles && final(h).out == old(h).out
//@endfn
//@fn api svm_runtime_create heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_runtime_destroy::guarded heap as=svm_runtime_destroy_guarded
//@contract
    requires old(h).wf()
    ensures r.owns(*final(h)), final(h).wf(), final(h).handles@ == old(h).handles@.remove(runtime.addr as int), r.error.addr == 0 <==> old(h).handles@.contains(runtime.addr as int)
//@endfn
//@fn api svm_runtime_destroy heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_validate_deploy heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_validate_spawn heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_validate_call heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_deploy heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_spawn heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_verify heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_call heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_uncommitted_changes heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_layer_info heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_rewind heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_commit heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_get_account heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_create_genesis_account heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_increase_balance heap
//@contract
    ensures r.owns(*final(h))
//@endfn
//@fn api svm_transfer heap
//@contract
    ensures r.owns(*final(h))
//@endfn
} // verus!
fn main() {}
