use vstd::prelude::*;
//@src ext crates/host/codec/src/ext.rs
//@src cod crates/host/codec/src/codec.rs
//@src t_addr crates/host/types/src/address.rs
//@src t_state crates/host/types/src/state.rs
//@src t_id crates/host/types/src/transaction/id.rs
//@src t_layer crates/host/types/src/transaction/layer.rs
//@src t_ctx crates/host/types/src/transaction/context.rs
//@src t_env crates/host/types/src/transaction/envelope.rs
//@src t_tx crates/host/types/src/transaction/mod.rs
//@src t_acc crates/host/types/src/account.rs
//@src t_spawn crates/host/types/src/spawn_account.rs
//@src t_gas crates/host/types/src/gas/mod.rs
//@sub impl (crate :: )?WriteExt ==> Vec<u8>
//@sub impl ReadExt ==> Cursor<'_>
//@sub Self :: Error :: ==> ParseError::
//@sub , Self :: Error > ==> , ParseError>
//@sub std :: result :: Result ==> Result
//@sub \bString\b ==> Str
//@sub & str\b ==> &Str
//@sub std :: u(\d+) :: MAX ==> u\1::MAX
//@sub \.to_string \(\) ==> .dup()
//@sub \.clone \(\) ==> .dup()
//@sub InputData :: ==> PrefixedU8::
//@sub ReturnData :: ==> PrefixedU16::
//@sub DataWithPrefix :: < u32 > :: ==> PrefixedU32::
//@sub Vec :: with_capacity ==> vec_with_capacity
//@sub \.to_vec \(\) ==> .dup()
//@sub \b_?cursor\b ==> reader
//@sub HashSet < Address > ==> AddrSet
//@sub HashSet :: ==> AddrSet::
//@sub PhantomData :: default \(\) ==> ()
//@sub rt_panic \(\) ; ==> rt_panic::<()>();
//@sub \{ rt_panic \(\) \} ==> { rt_panic::<()>() }
verus! {
global size_of usize == 8;
/// Which property's clauses are asked for in this run: decoding inverts encoding (C13); a decoded value took at least the bytes of its own encoding (C14).
/// That nothing here panics is asked for in every run.
pub open spec fn round() -> bool { /*?round*/true }
pub open spec fn tight() -> bool { /*?tight*/true }

// ---------------------------------------------------------------- sequences of bytes
pub mod seqs {
use vstd::prelude::*;
pub broadcast proof fn cat_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn cat_nil(a: Seq<u8>) ensures #[trigger] (a + Seq::<u8>::empty()) == a { assert((a + Seq::<u8>::empty()) =~= a); }
pub broadcast proof fn nil_cat(a: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + a) == a { assert((Seq::<u8>::empty() + a) =~= a); }
pub broadcast group bytes { cat_assoc, cat_nil, nil_cat }
/// What is written first is read first.
pub broadcast proof fn parts(a: Seq<u8>, t: Seq<u8>) ensures #[trigger] (a + t).take(a.len() as int) == a, (a + t).skip(a.len() as int) == t
{ assert((a + t).take(a.len() as int) =~= a); assert((a + t).skip(a.len() as int) =~= t); }
pub broadcast proof fn parts_all(a: Seq<u8>, t: Seq<u8>) ensures (#[trigger] (a + t)).take(a.len() as int) == a, (a + t).skip(a.len() as int) == t, a.len() == 1 ==> (a + t)[0] == a[0], (a + t).len() == a.len() + t.len()
{ parts(a, t); }
pub broadcast proof fn skip_skip(r: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= r.len()
    ensures #[trigger] r.skip(a).skip(b) == r.skip(a + b)
{ assert(r.skip(a).skip(b) =~= r.skip(a + b)); }
pub broadcast proof fn skip_0(a: Seq<u8>) ensures #[trigger] a.skip(0) == a { assert(a.skip(0) =~= a); }
}
use seqs::*;
broadcast use {seqs::bytes, nums::lens};

// ---------------------------------------------------------------- what the code stands on (assumed contracts)
#[derive(Clone, Copy)]
pub enum ParseError { Eof, BadByte(u8), String, InvalidSection, Other }
pub fn rt_assert(b: bool) requires b {}
pub fn rt_panic<T>() -> (r: T) requires false { loop invariant false decreases 0int { } }
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> (r: T) { unimplemented!() } }
/// Reserving room: never for more than 2^16 items.
#[verifier::external_body]
pub fn vec_with_capacity<T>(n: usize) -> (r: Vec<T>) requires n <= 0x10000 ensures r@ == Seq::<T>::empty() { Vec::new() }
pub trait OptionPanics<T> { spec fn val(&self) -> Option<T>; fn unwrap(self) -> (r: T) requires self.val() is Some ensures Some(r) == self.val(); }

pub uninterp spec fn utf8(b: Seq<u8>) -> bool;
/// A String: some bytes of valid UTF-8.
pub struct Str { pub b: Vec<u8> }
impl Str {
    pub fn as_bytes(&self) -> (r: &Vec<u8>) ensures *r == self.b { &self.b }
    pub fn len(&self) -> (r: usize) ensures r == self.b@.len() { self.b.len() }
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: Result<Str, ParseError>) ensures r is Ok == utf8(v@), r matches Ok(s) ==> s.b@ == v@ { unimplemented!() }
}
/// std::io::Cursor over bytes
#[verifier::external_body]
pub struct Cursor<'a> { data: &'a [u8] }
pub struct IoError;
impl<'a> Cursor<'a> {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(data: &'a [u8]) -> (r: Cursor<'a>) ensures r.rest() == data@ { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut [u8; 1]) -> (r: Result<(), IoError>)
        ensures r is Ok == (old(self).rest().len() >= 1), r is Ok ==> final(buf)@ == old(self).rest().take(1) && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<u8>) ensures r is Some == (self.rest().len() > 0), r matches Some(b) ==> b == self.rest()[0]
    { unimplemented!() }
//@fn ext ReadExt@Cursor::peek_byte
//@local self\.get_ref \(\)\.get \(self\.position \(\) as usize\)\.copied \(\) ==> self.peek()
//@contract
    ensures r is Some == (self.rest().len() > 0), r matches Some(b) ==> b == self.rest()[0]
//@endfn
//@fn ext ReadExt@Cursor::read_byte
//@local \[0 ; 1\] ==> [0u8; 1]
//@contract
    ensures r is Ok == (old(self).rest().len() >= 1), r matches Ok(b) ==> b == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), good(old(self).rest(), r, final(self).rest()),
//@end
    proof { broadcast use seqs::parts_all; }
//@endfn
//@fn ext ReadExt::read_fill
//@begin
    proof { broadcast use {seqs::skip_skip, seqs::skip_0}; }
//@local & mut \[u8\] ==> &mut Vec<u8>
//@contract
    ensures final(buf)@.len() == old(buf)@.len(), r is Ok ==> old(buf)@.len() <= old(self).rest().len() && final(buf)@ == old(self).rest().take(old(buf)@.len() as int) && final(self).rest() == old(self).rest().skip(old(buf)@.len() as int),
        r is Err ==> old(self).rest().len() < old(buf)@.len()
//@inv 0
    invariant __i0 <= buf@.len(), buf@.len() == old(buf)@.len(), __i0 <= old(self).rest().len(), self.rest() == old(self).rest().skip(__i0 as int),
        forall|j: int| 0 <= j < __i0 ==> buf@[j] == old(self).rest()[j]
    decreases buf@.len() - __i0
//@end
    proof { if __result is Ok { assert(buf@ =~= old(self).rest().take(old(buf)@.len() as int)); } }
//@endfn
//@fn ext ReadExt::read_bytes
//@begin
    proof { broadcast use {seqs::skip_skip, seqs::skip_0}; }
//@contract
    ensures r matches Ok(v) ==> length <= old(self).rest().len() && v@ == old(self).rest().take(length as int) && final(self).rest() == old(self).rest().skip(length as int),
        r is Err ==> old(self).rest().len() < length
//@inv 0
    invariant __i0 <= __end0, __end0 == length, __i0 <= old(self).rest().len(), self.rest() == old(self).rest().skip(__i0 as int), buf@ == old(self).rest().take(__i0 as int),
    decreases __end0 - __i0
//@before 0
    proof { assert(old(self).rest().take(0) =~= Seq::<u8>::empty()); }
//@bot 0
    proof { assert(old(self).rest().take(__i0 as int).push(old(self).rest()[__i0 as int]) =~= old(self).rest().take(__i0 + 1)); }
//@endfn
}
pub trait WriteExt {
    spec fn out(&self) -> Seq<u8>;
    fn write_byte(&mut self, byte: u8) ensures final(self).out() == old(self).out() + seq![byte];
    fn write_bytes(&mut self, bytes: &[u8]) ensures final(self).out() == old(self).out() + bytes@;
}
impl WriteExt for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
//@fn ext WriteExt@Vec::write_byte trait
//@end
    proof { assert(self@ =~= old(self)@ + seq![byte]); }
//@endfn
//@fn ext WriteExt@Vec::write_bytes trait
//@end
    proof { assert(self@ =~= old(self)@ + bytes@); }
//@endfn
}

// ---------------------------------------------------------------- the contract of a codec
pub trait Format: Sized {
    /// What a value is, its encoding, which values can be encoded, and when a decoded value a is as good as the original b.
    type V;
    spec fn vw(&self) -> Self::V;
    spec fn ok(v: Self::V) -> bool;
    spec fn enc(v: Self::V) -> Seq<u8>;
    spec fn same(a: Self::V, b: Self::V) -> bool;
}
pub trait Codec: Format {
    fn encode(&self, w: &mut Vec<u8>)
        requires Self::ok(self.vw())
        ensures round() ==> final(w)@ == old(w)@ + Self::enc(self.vw());
    fn decode(reader: &mut Cursor<'_>) -> (r: Result<Self, ParseError>)
        ensures good(old(reader).rest(), r, final(reader).rest());
}
pub open spec fn good<T: Format>(r0: Seq<u8>, r: Result<T, ParseError>, r1: Seq<u8>) -> bool {
    &&& round() ==> forall|v: T::V, t: Seq<u8>| T::ok(v) && r0 == #[trigger] (T::enc(v) + t) ==> r is Ok && T::same(r->Ok_0.vw(), v) && r1 == t
    &&& tight() ==> (r matches Ok(x) ==> r1.len() + T::enc(x.vw()).len() <= r0.len())
}

// ---------------------------------------------------------------- numbers, big-endian
pub mod nums {
use vstd::prelude::*;
pub closed spec fn be16(x: u16) -> Seq<u8> { seq![(x >> 8) as u8, x as u8] }
pub closed spec fn be32(x: u32) -> Seq<u8> { be16((x >> 16) as u16) + be16(x as u16) }
pub closed spec fn be64(x: u64) -> Seq<u8> { be32((x >> 32) as u32) + be32(x as u32) }
pub closed spec fn be128(x: u128) -> Seq<u8> { be64((x >> 64) as u64) + be64(x as u64) }
pub broadcast proof fn len16(x: u16) ensures #[trigger] be16(x).len() == 2 {}
pub broadcast proof fn len32(x: u32) ensures #[trigger] be32(x).len() == 4 {}
pub broadcast proof fn len64(x: u64) ensures #[trigger] be64(x).len() == 8 {}
pub broadcast proof fn len128(x: u128) ensures #[trigger] be128(x).len() == 16 {}
pub broadcast group lens { len16, len32, len64, len128 }
pub proof fn inj16(x: u16, y: u16) ensures be16(x) == be16(y) ==> x == y
{
    if be16(x) == be16(y) {
        assert(be16(x)[0] == be16(y)[0] && be16(x)[1] == be16(y)[1]);
        assert((x >> 8) as u8 == (y >> 8) as u8 && x as u8 == y as u8 ==> x == y) by (bit_vector);
    }
}
pub proof fn inj32(x: u32, y: u32) ensures be32(x) == be32(y) ==> x == y
{
    if be32(x) == be32(y) {
        assert(be32(x).take(2) =~= be16((x >> 16) as u16) && be32(x).skip(2) =~= be16(x as u16));
        assert(be32(y).take(2) =~= be16((y >> 16) as u16) && be32(y).skip(2) =~= be16(y as u16));
        inj16((x >> 16) as u16, (y >> 16) as u16); inj16(x as u16, y as u16);
        assert((x >> 16) as u16 == (y >> 16) as u16 && x as u16 == y as u16 ==> x == y) by (bit_vector);
    }
}
pub proof fn inj64(x: u64, y: u64) ensures be64(x) == be64(y) ==> x == y
{
    if be64(x) == be64(y) {
        assert(be64(x).take(4) =~= be32((x >> 32) as u32) && be64(x).skip(4) =~= be32(x as u32));
        assert(be64(y).take(4) =~= be32((y >> 32) as u32) && be64(y).skip(4) =~= be32(y as u32));
        inj32((x >> 32) as u32, (y >> 32) as u32); inj32(x as u32, y as u32);
        assert((x >> 32) as u32 == (y >> 32) as u32 && x as u32 == y as u32 ==> x == y) by (bit_vector);
    }
}
pub proof fn inj128(x: u128, y: u128) ensures be128(x) == be128(y) ==> x == y
{
    if be128(x) == be128(y) {
        assert(be128(x).take(8) =~= be64((x >> 64) as u64) && be128(x).skip(8) =~= be64(x as u64));
        assert(be128(y).take(8) =~= be64((y >> 64) as u64) && be128(y).skip(8) =~= be64(y as u64));
        inj64((x >> 64) as u64, (y >> 64) as u64); inj64(x as u64, y as u64);
        assert((x >> 64) as u64 == (y >> 64) as u64 && x as u64 == y as u64 ==> x == y) by (bit_vector);
    }
}
}
use nums::*;
#[verifier::external_body]
pub fn to_be_u16(x: u16) -> (r: [u8; 2]) ensures r@ == be16(x) { x.to_be_bytes() }
#[verifier::external_body]
pub fn to_be_u32(x: u32) -> (r: [u8; 4]) ensures r@ == be32(x) { x.to_be_bytes() }
#[verifier::external_body]
pub fn to_be_u64(x: u64) -> (r: [u8; 8]) ensures r@ == be64(x) { x.to_be_bytes() }
#[verifier::external_body]
pub fn to_be_u128(x: u128) -> (r: [u8; 16]) ensures r@ == be128(x) { x.to_be_bytes() }
#[verifier::external_body]
pub fn from_be_u16(b: Vec<u8>) -> (r: u16) requires b@.len() == 2 ensures be16(r) == b@ { unimplemented!() }
#[verifier::external_body]
pub fn from_be_u32(b: Vec<u8>) -> (r: u32) requires b@.len() == 4 ensures be32(r) == b@ { unimplemented!() }
#[verifier::external_body]
pub fn from_be_u64(b: Vec<u8>) -> (r: u64) requires b@.len() == 8 ensures be64(r) == b@ { unimplemented!() }
#[verifier::external_body]
pub fn from_be_u128(b: Vec<u8>) -> (r: u128) requires b@.len() == 16 ensures be128(r) == b@ { unimplemented!() }
#[verifier::external_body]
pub fn zeroed(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { vec![0; n] }
//@sub \[0u8 ; u(\d+) :: BITS as usize / 8\] ==> zeroed(\1 / 8)
//@sub & mut buf \[\.\.\] ==> &mut buf
impl Format for u8 {
    type V = u8;
    open spec fn vw(&self) -> u8 { *self }
    open spec fn ok(v: u8) -> bool { true }
    open spec fn enc(v: u8) -> Seq<u8> { seq![v] }
    open spec fn same(a: u8, b: u8) -> bool { a == b }
}
impl Codec for u8 {
//@fn cod Codec@u8::encode trait
//@endfn
//@fn cod Codec@u8::decode trait
//@begin
    proof { broadcast use seqs::parts_all; }
//@endfn
}
impl Format for bool {
    type V = bool;
    open spec fn vw(&self) -> bool { *self }
    open spec fn ok(v: bool) -> bool { true }
    open spec fn enc(v: bool) -> Seq<u8> { seq![if v { 1u8 } else { 0u8 }] }
    open spec fn same(a: bool, b: bool) -> bool { a == b }
}
impl Codec for bool {
//@fn cod Codec@bool::encode trait
//@endfn
//@fn cod Codec@bool::decode trait
//@begin
    proof { broadcast use seqs::parts_all; }
//@endfn
}
impl Format for u16 {
    type V = u16;
    open spec fn vw(&self) -> u16 { *self }
    open spec fn ok(v: u16) -> bool { true }
    open spec fn enc(v: u16) -> Seq<u8> { be16(v) }
    open spec fn same(a: u16, b: u16) -> bool { a == b }
}
impl Codec for u16 {
//@fn cod Codec@u16::encode trait
//@local & self\.to_be_bytes \(\) ==> &to_be_u16(*self)
//@endfn
//@fn cod Codec@u16::decode trait
//@begin
    proof { broadcast use seqs::parts_all; }
//@local u16 :: from_be_bytes ==> from_be_u16
//@end
    proof { if __result is Ok { assert forall|v: u16, t: Seq<u8>| old(reader).rest() == #[trigger] (be16(v) + t) implies v == __result->Ok_0 by { inj16(v, __result->Ok_0); } } }
//@endfn
}
impl Format for u32 {
    type V = u32;
    open spec fn vw(&self) -> u32 { *self }
    open spec fn ok(v: u32) -> bool { true }
    open spec fn enc(v: u32) -> Seq<u8> { be32(v) }
    open spec fn same(a: u32, b: u32) -> bool { a == b }
}
impl Codec for u32 {
//@fn cod Codec@u32::encode trait
//@local & self\.to_be_bytes \(\) ==> &to_be_u32(*self)
//@endfn
//@fn cod Codec@u32::decode trait
//@begin
    proof { broadcast use seqs::parts_all; }
//@local u32 :: from_be_bytes ==> from_be_u32
//@end
    proof { if __result is Ok { assert forall|v: u32, t: Seq<u8>| old(reader).rest() == #[trigger] (be32(v) + t) implies v == __result->Ok_0 by { inj32(v, __result->Ok_0); } } }
//@endfn
}
impl Format for u64 {
    type V = u64;
    open spec fn vw(&self) -> u64 { *self }
    open spec fn ok(v: u64) -> bool { true }
    open spec fn enc(v: u64) -> Seq<u8> { be64(v) }
    open spec fn same(a: u64, b: u64) -> bool { a == b }
}
impl Codec for u64 {
//@fn cod Codec@u64::encode trait
//@local & self\.to_be_bytes \(\) ==> &to_be_u64(*self)
//@endfn
//@fn cod Codec@u64::decode trait
//@begin
    proof { broadcast use seqs::parts_all; }
//@local u64 :: from_be_bytes ==> from_be_u64
//@end
    proof { if __result is Ok { assert forall|v: u64, t: Seq<u8>| old(reader).rest() == #[trigger] (be64(v) + t) implies v == __result->Ok_0 by { inj64(v, __result->Ok_0); } } }
//@endfn
}
impl Format for u128 {
    type V = u128;
    open spec fn vw(&self) -> u128 { *self }
    open spec fn ok(v: u128) -> bool { true }
    open spec fn enc(v: u128) -> Seq<u8> { be128(v) }
    open spec fn same(a: u128, b: u128) -> bool { a == b }
}
impl Codec for u128 {
//@fn cod Codec@u128::encode trait
//@local & self\.to_be_bytes \(\) ==> &to_be_u128(*self)
//@endfn
//@fn cod Codec@u128::decode trait
//@begin
    proof { broadcast use seqs::parts_all; }
//@local u128 :: from_be_bytes ==> from_be_u128
//@end
    proof { if __result is Ok { assert forall|v: u128, t: Seq<u8>| old(reader).rest() == #[trigger] (be128(v) + t) implies v == __result->Ok_0 by { inj128(v, __result->Ok_0); } } }
//@endfn
}
// ---------------------------------------------------------------- bytes, strings, blobs
//@sub u(8|16) :: try_from ==> try_u\1
//@sub \.expect \("[^"]*"\) ==> .unwrap()
pub trait ToInt: Sized { spec fn int(&self) -> int; fn to_u64(self) -> (r: u64) ensures r == self.int(); }
impl ToInt for u16 { open spec fn int(&self) -> int { *self as int } fn to_u64(self) -> (r: u64) { self as u64 } }
impl ToInt for u64 { open spec fn int(&self) -> int { *self as int } fn to_u64(self) -> (r: u64) { self } }
impl ToInt for usize { open spec fn int(&self) -> int { *self as int } fn to_u64(self) -> (r: u64) { self as u64 } }
pub fn try_u8<T: ToInt>(x: T) -> (r: Result<u8, ()>) ensures r is Ok == (0 <= x.int() <= 255), r matches Ok(y) ==> y == x.int() { let x = x.to_u64(); if x <= 255 { Ok(x as u8) } else { Err(()) } }
pub fn try_u16<T: ToInt>(x: T) -> (r: Result<u16, ()>) ensures r is Ok == (0 <= x.int() <= 65535), r matches Ok(y) ==> y == x.int() { let x = x.to_u64(); if x <= 65535 { Ok(x as u16) } else { Err(()) } }
pub fn try_u32<T: ToInt>(x: T) -> (r: Result<u32, ()>) ensures r is Ok == (0 <= x.int() <= 0xffff_ffff), r matches Ok(y) ==> y == x.int() { let x = x.to_u64(); if x <= 0xffff_ffff { Ok(x as u32) } else { Err(()) } }
#[verifier::external_body]
pub fn to_array<const N: usize>(v: Vec<u8>) -> (r: [u8; N]) requires v@.len() == N ensures r@ == v@ { unimplemented!() }
impl<const N: usize> Format for [u8; N] {
    type V = Seq<u8>;
    open spec fn vw(&self) -> Seq<u8> { self@ }
    open spec fn ok(v: Seq<u8>) -> bool { v.len() == N }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { v }
    open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { a == b }
}
impl<const N: usize> Codec for [u8; N] {
//@fn cod Codec@[u8;N]::encode trait
//@local & self \[\.\.\] ==> self
//@endfn
//@fn cod Codec@[u8;N]::decode trait
//@begin
    proof { broadcast use seqs::parts_all; }
//@local \(& (.*?) \[\.\.\]\)\.try_into \(\)\.unwrap \(\) ==> to_array::<N>(\1)
//@endfn
}
#[derive(Clone, Copy)]
//@item t_addr struct:Address
#[derive(Clone, Copy)]
//@item t_addr struct:TemplateAddr
#[derive(Clone, Copy)]
//@item t_state struct:State
#[derive(Clone, Copy)]
//@item t_id struct:TransactionId
#[derive(Clone, Copy)]
//@item t_layer struct:Layer
impl Format for Address {
    type V = Seq<u8>;
    open spec fn vw(&self) -> Seq<u8> { self.0@ }
    open spec fn ok(v: Seq<u8>) -> bool { v.len() == 20 }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { <[u8; 20] as Format>::enc(v) }
    open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { a == b }
}
impl Codec for Address {
//@fn cod Codec@Address::encode trait
//@local self\.as_ref \(\) ==> &self.0
//@endfn
//@fn cod Codec@Address::decode trait
//@local < \[u8 ; Self :: N\] >(.*?)\.into \(\) ==> Address(<[u8; 20]>\1)
//@endfn
}
impl Format for TemplateAddr {
    type V = Seq<u8>;
    open spec fn vw(&self) -> Seq<u8> { self.0@ }
    open spec fn ok(v: Seq<u8>) -> bool { v.len() == 20 }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { <[u8; 20] as Format>::enc(v) }
    open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { a == b }
}
impl Codec for TemplateAddr {
//@fn cod Codec@TemplateAddr::encode trait
//@local self\.as_ref \(\) ==> &self.0
//@endfn
//@fn cod Codec@TemplateAddr::decode trait
//@local < \[u8 ; Self :: N\] >(.*?)\.into \(\) ==> TemplateAddr(<[u8; 20]>\1)
//@endfn
}
impl Format for State {
    type V = Seq<u8>;
    open spec fn vw(&self) -> Seq<u8> { self.0@ }
    open spec fn ok(v: Seq<u8>) -> bool { v.len() == 32 }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { <[u8; 32] as Format>::enc(v) }
    open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { a == b }
}
impl Codec for State {
//@fn cod Codec@State::encode trait
//@local self\.as_ref \(\) ==> &self.0
//@endfn
//@fn cod Codec@State::decode trait
//@local < \[u8 ; Self :: N\] >(.*?)\.into \(\) ==> State(<[u8; 32]>\1)
//@endfn
}
impl Format for TransactionId {
    type V = Seq<u8>;
    open spec fn vw(&self) -> Seq<u8> { self.0@ }
    open spec fn ok(v: Seq<u8>) -> bool { v.len() == 32 }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { <[u8; 32] as Format>::enc(v) }
    open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { a == b }
}
impl Codec for TransactionId {
//@fn cod Codec@TransactionId::encode trait
//@local self\.as_ref \(\) ==> &self.0
//@endfn
//@fn cod Codec@TransactionId::decode trait
//@local < \[u8 ; Self :: N\] >(.*?)\.into \(\) ==> TransactionId(<[u8; 32]>\1)
//@endfn
}
#[derive(Clone, Copy)]
//@item t_gas struct:Gas
impl Gas {
//@fn t_gas Gas::new
//@contract
    ensures r.0 is None
//@endfn
//@fn t_gas Gas::with
//@contract
    ensures r.0 == Some(gas)
//@endfn
//@fn t_gas Gas::unwrap_or
//@contract
    ensures r == (match self.0 { Some(g) => g, None => default })
//@endfn
}
/// A gas limit of 0 reads as no limit.
pub open spec fn norm(g: Option<u64>) -> Option<u64> { if g == Some(0u64) { None } else { g } }
pub open spec fn gas_enc(g: Option<u64>) -> Seq<u8> { u64::enc(match g { Some(x) => x, None => 0 }) }
impl Format for Gas {
    type V = Option<u64>;
    open spec fn vw(&self) -> Option<u64> { self.0 }
    open spec fn ok(v: Option<u64>) -> bool { true }
    open spec fn enc(v: Option<u64>) -> Seq<u8> { gas_enc(v) }
    open spec fn same(a: Option<u64>, b: Option<u64>) -> bool { norm(a) == norm(b) }
}
impl Codec for Gas {
//@fn cod Codec@Gas::encode trait
//@endfn
//@fn cod Codec@Gas::decode trait
//@endfn
}
impl Format for Str {
    type V = Seq<u8>;
    open spec fn vw(&self) -> Seq<u8> { self.b@ }
    open spec fn ok(v: Seq<u8>) -> bool { utf8(v) && v.len() <= 255 }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { seq![v.len() as u8] + v }
    open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { a == b }
}
impl Codec for Str {
//@fn cod Codec@String::encode trait
//@endfn
//@fn cod Codec@String::decode trait
//@begin
    proof { broadcast use seqs::parts_all; }
//@endfn
}
pub struct PrefixedU8 { pub data: Vec<u8>, pub phantom: () }
pub struct PrefixedU16 { pub data: Vec<u8>, pub phantom: () }
pub struct PrefixedU32 { pub data: Vec<u8>, pub phantom: () }
impl PrefixedU8 {
//@fn cod DataWithPrefix::new
//@contract
    ensures r.data@ == data@
//@endfn
}
impl PrefixedU16 {
//@fn cod DataWithPrefix::new
//@contract
    ensures r.data@ == data@
//@endfn
}
impl PrefixedU32 {
//@fn cod DataWithPrefix::new
//@contract
    ensures r.data@ == data@
//@endfn
}
impl Format for PrefixedU8 {
    type V = Seq<u8>;
    open spec fn vw(&self) -> Seq<u8> { self.data@ }
    open spec fn ok(v: Seq<u8>) -> bool { v.len() <= 255 }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { u8::enc(v.len() as u8) + v }
    open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { a == b }
}
impl Codec for PrefixedU8 {
//@fn cod Codec@DataWithPrefix::encode trait
//@local P :: try_from ==> try_u8
//@local \.map_err \(\| _ \| \(\)\) ==>
//@endfn
//@fn cod Codec@DataWithPrefix::decode trait
//@begin
    proof { broadcast use seqs::parts_all; }
//@local P :: ==> u8::
//@local len\.into \(\) ==> len as u64
//@local \.map_err \(\| _ \| ParseError :: Eof\) ==>
//@endfn
}
#[verifier::opaque]
pub open spec fn blob16(v: Seq<u8>) -> Seq<u8> { u16::enc(v.len() as u16) + v }
impl Format for PrefixedU16 {
    type V = Seq<u8>;
    open spec fn vw(&self) -> Seq<u8> { self.data@ }
    open spec fn ok(v: Seq<u8>) -> bool { v.len() <= 65535 }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { blob16(v) }
    open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { a == b }
}
impl Codec for PrefixedU16 {
//@fn cod Codec@DataWithPrefix::encode trait
//@local P :: try_from ==> try_u16
//@local \.map_err \(\| _ \| \(\)\) ==>
//@begin
    proof { reveal(blob16); broadcast use seqs::parts_all; }
//@endfn
//@fn cod Codec@DataWithPrefix::decode trait
//@local P :: ==> u16::
//@local len\.into \(\) ==> len as u64
//@local \.map_err \(\| _ \| ParseError :: Eof\) ==>
//@begin
    proof { reveal(blob16); broadcast use seqs::parts_all; }
//@endfn
}
impl Format for PrefixedU32 {
    type V = Seq<u8>;
    open spec fn vw(&self) -> Seq<u8> { self.data@ }
    open spec fn ok(v: Seq<u8>) -> bool { v.len() <= 0xffff_ffff }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { u32::enc(v.len() as u32) + v }
    open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { a == b }
}
impl Codec for PrefixedU32 {
//@fn cod Codec@DataWithPrefix::encode trait
//@local P :: try_from ==> try_u32
//@local \.map_err \(\| _ \| \(\)\) ==>
//@endfn
//@fn cod Codec@DataWithPrefix::decode trait
//@begin
    proof { broadcast use seqs::parts_all; }
//@local P :: ==> u32::
//@local len\.into \(\) ==> len as u64
//@local \.map_err \(\| _ \| ParseError :: Eof\) ==>
//@endfn
}

// ---------------------------------------------------------------- envelope, message, context
//@item t_env struct:Envelope
impl Envelope {
//@fn t_env Envelope::new
//@contract
    ensures r.principal == principal, r.amount == amount, r.nonce == nonce, r.gas_limit == gas_limit, r.gas_fee == gas_fee
//@endfn
//@fn t_env Envelope::principal
//@contract
    ensures *r == self.principal
//@endfn
//@fn t_env Envelope::amount
//@contract
    ensures r == self.amount
//@endfn
//@fn t_env Envelope::nonce
//@contract
    ensures r == self.nonce
//@endfn
//@fn t_env Envelope::gas_limit
//@contract
    ensures r == self.gas_limit
//@endfn
//@fn t_env Envelope::gas_fee
//@contract
    ensures r == self.gas_fee
//@endfn
}
pub struct EnvV { pub principal: Seq<u8>, pub amount: u64, pub nonce: u128, pub gas_limit: Option<u64>, pub gas_fee: u64 }
impl Format for Envelope {
    type V = EnvV;
    open spec fn vw(&self) -> EnvV { EnvV { principal: self.principal.0@, amount: self.amount, nonce: self.nonce, gas_limit: self.gas_limit.0, gas_fee: self.gas_fee } }
    open spec fn ok(v: EnvV) -> bool { v.principal.len() == 20 }
    open spec fn enc(v: EnvV) -> Seq<u8> { Address::enc(v.principal) + (u64::enc(v.amount) + (u128::enc(v.nonce) + (Gas::enc(v.gas_limit) + u64::enc(v.gas_fee)))) }
    open spec fn same(a: EnvV, b: EnvV) -> bool { EnvV { gas_limit: norm(a.gas_limit), ..a } == EnvV { gas_limit: norm(b.gas_limit), ..b } }
}
impl Codec for Envelope {
//@fn cod Codec@Envelope::encode trait
//@endfn
//@fn cod Codec@Envelope::decode trait
//@endfn
}
//@fn cod Codec@Envelope::fixed_size as=envelope_size
//@contract
    ensures r matches Some(n) ==> forall|v: EnvV| Envelope::ok(v) ==> (#[trigger] Envelope::enc(v)).len() == n
//@endfn
//@item t_tx struct:Transaction
impl Transaction {
//@fn t_tx Transaction::target
//@contract
    ensures *r == self.target
//@endfn
//@fn t_tx Transaction::func_name
//@contract
    ensures *r == self.func_name
//@endfn
}
pub struct TxV { pub version: u16, pub target: Seq<u8>, pub func_name: Seq<u8>, pub verifydata: Seq<u8>, pub calldata: Seq<u8> }
impl Format for Transaction {
    type V = TxV;
    open spec fn vw(&self) -> TxV { TxV { version: self.version, target: self.target.0@, func_name: self.func_name.b@, verifydata: self.verifydata@, calldata: self.calldata@ } }
    open spec fn ok(v: TxV) -> bool { Address::ok(v.target) && Str::ok(v.func_name) && v.verifydata.len() <= 255 && v.calldata.len() <= 255 }
    open spec fn enc(v: TxV) -> Seq<u8> { u16::enc(v.version) + (Address::enc(v.target) + (Str::enc(v.func_name) + (PrefixedU8::enc(v.verifydata) + PrefixedU8::enc(v.calldata)))) }
    open spec fn same(a: TxV, b: TxV) -> bool { a == b }
}
impl Codec for Transaction {
//@fn cod Codec@Transaction::encode trait
//@endfn
//@fn cod Codec@Transaction::decode trait
//@local \.into \(\) ==>
//@endfn
}
//@item t_ctx struct:Context
impl Context {
//@fn t_ctx Context::new
//@contract
    ensures r.tx_id == tx_id, r.layer == layer, r.state == state
//@endfn
//@fn t_ctx Context::tx_id
//@contract
    ensures *r == self.tx_id
//@endfn
//@fn t_ctx Context::layer
//@contract
    ensures r == self.layer
//@endfn
//@fn t_ctx Context::state
//@contract
    ensures *r == self.state
//@endfn
}
pub struct CtxV { pub tx_id: Seq<u8>, pub layer: u64, pub state: Seq<u8> }
impl Format for Context {
    type V = CtxV;
    open spec fn vw(&self) -> CtxV { CtxV { tx_id: self.tx_id.0@, layer: self.layer.0, state: self.state.0@ } }
    open spec fn ok(v: CtxV) -> bool { v.tx_id.len() == 32 && v.state.len() == 32 }
    open spec fn enc(v: CtxV) -> Seq<u8> { TransactionId::enc(v.tx_id) + (u64::enc(v.layer) + State::enc(v.state)) }
    open spec fn same(a: CtxV, b: CtxV) -> bool { a == b }
}
impl Codec for Context {
//@fn cod Codec@Context::encode trait
//@endfn
//@fn cod Codec@Context::decode trait
//@endfn
}
//@fn cod Codec@Context::fixed_size as=context_size
//@contract
    ensures r matches Some(n) ==> forall|v: CtxV| Context::ok(v) ==> (#[trigger] Context::enc(v)).len() == n
//@endfn
//@item t_acc struct:Account
//@item t_spawn struct:SpawnAccount
impl SpawnAccount {
//@fn t_spawn SpawnAccount::account_name
//@contract
    ensures *r == self.account.name
//@endfn
//@fn t_spawn SpawnAccount::template_addr
//@contract
    ensures *r == self.account.template_addr
//@endfn
//@fn t_spawn SpawnAccount::ctor_name
//@contract
    ensures *r == self.ctor_name
//@endfn
}
pub struct SpawnV { pub version: u16, pub template: Seq<u8>, pub name: Seq<u8>, pub ctor: Seq<u8>, pub calldata: Seq<u8> }
impl Format for SpawnAccount {
    type V = SpawnV;
    open spec fn vw(&self) -> SpawnV { SpawnV { version: self.version, template: self.account.template_addr.0@, name: self.account.name.b@, ctor: self.ctor_name.b@, calldata: self.calldata@ } }
    open spec fn ok(v: SpawnV) -> bool { v.template.len() == 20 && Str::ok(v.name) && Str::ok(v.ctor) && v.calldata.len() <= 255 }
    open spec fn enc(v: SpawnV) -> Seq<u8> { u16::enc(v.version) + (TemplateAddr::enc(v.template) + (Str::enc(v.name) + (Str::enc(v.ctor) + PrefixedU8::enc(v.calldata)))) }
    open spec fn same(a: SpawnV, b: SpawnV) -> bool { a == b }
}
impl Codec for SpawnAccount {
//@fn cod Codec@SpawnAccount::encode trait
//@endfn
//@fn cod Codec@SpawnAccount::decode trait
//@local \.into \(\) ==>
//@endfn
}
// ---------------------------------------------------------------- lists
//@include iter.inc
impl<'a, T> ModelIter<&'a T> for &'a Vec<T> {
    open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn model_iter(self) -> (r: VecIter<&'a T>) { unimplemented!() }
}
/// The items from the i-th on, one after the other.
pub open spec fn flat<T: Format>(v: Seq<T::V>, i: int) -> Seq<u8> decreases v.len() - i { if i < 0 || i >= v.len() { Seq::empty() } else { T::enc(v[i]) + flat::<T>(v, i + 1) } }
/// How many bytes the first n take.
pub open spec fn size<T: Format>(v: Seq<T::V>, n: int) -> nat decreases n { if n <= 0 { 0 } else { size::<T>(v, n - 1) + T::enc(v[n - 1]).len() } }
proof fn flat_size<T: Format>(v: Seq<T::V>, i: int)
    requires 0 <= i <= v.len()
    ensures size::<T>(v, i) + flat::<T>(v, i).len() == size::<T>(v, v.len() as int)
    decreases v.len() - i
{ if i < v.len() { flat_size::<T>(v, i + 1); } }
proof fn size_ext<T: Format>(a: Seq<T::V>, b: Seq<T::V>, n: int)
    requires forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures size::<T>(a, n) == size::<T>(b, n)
    decreases n
{ if n > 0 { size_ext::<T>(a, b, n - 1); } }
pub open spec fn views<T: Format>(v: Seq<T>) -> Seq<T::V> { Seq::new(v.len(), |i: int| v[i].vw()) }
impl<T: Format> Format for Vec<T> {
    type V = Seq<T::V>;
    open spec fn vw(&self) -> Seq<T::V> { views(self@) }
    open spec fn ok(v: Seq<T::V>) -> bool { v.len() <= 65535 && forall|i: int| 0 <= i < v.len() ==> T::ok(#[trigger] v[i]) }
    open spec fn enc(v: Seq<T::V>) -> Seq<u8> { u16::enc(v.len() as u16) + flat::<T>(v, 0) }
    open spec fn same(a: Seq<T::V>, b: Seq<T::V>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> T::same(#[trigger] a[i], b[i]) }
}
impl<T: Codec> Codec for Vec<T> {
//@fn cod Codec@Vec::encode trait
//@inv 0
    invariant Self::ok(self.vw()), 0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == self@.len(), forall|i: int| 0 <= i < __it0.v@.len() ==> *(#[trigger] __it0.v@[i]) == self@[i],
        round() ==> w@ + flat::<T>(self.vw(), __it0.i@) == old(w)@ + Self::enc(self.vw()),
    ensures round() ==> w@ == old(w)@ + Self::enc(self.vw()),
    decreases __it0.v@.len() - __it0.i@
//@top 0
    proof { let j = __it0.i@; if j < self@.len() { assert(T::ok(self.vw()[j])); } }
//@endfn
//@fn cod Codec@Vec::decode trait
//@local Vec :: with_capacity ==> vec_with_capacity::<T>
//@inv 0
    invariant __end0 == len, __i0 <= __end0, vec@.len() == __i0,
        round() ==> forall|v: Seq<T::V>, t: Seq<u8>| Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) ==> v.len() == len
            && (forall|j: int| 0 <= j < __i0 ==> T::same(#[trigger] vec@[j].vw(), v[j])) && reader.rest() == flat::<T>(v, __i0 as int) + t,
        tight() ==> reader.rest().len() + 2 + size::<T>(views(vec@), __i0 as int) <= old(reader).rest().len(),
    decreases __end0 - __i0
//@top 0
    let ghost x0 = vec@;
    proof {
        assert forall|v: Seq<T::V>, t: Seq<u8>| round() && Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) implies reader.rest() == T::enc(v[__i0 as int]) + (flat::<T>(v, __i0 + 1) + t) && T::ok(v[__i0 as int]) by {}
    }
//@bot 0
    proof { size_ext::<T>(views(x0), views(vec@), __i0 as int); }
//@end
    proof { if __result is Ok { flat_size::<T>(__result->Ok_0.vw(), 0); } }
//@endfn
}
//@src r_log crates/host/types/src/receipt/log.rs
//@src c_logs crates/host/codec/src/receipt/logs.rs
//@item r_log struct:ReceiptLog
impl ReceiptLog {
//@fn r_log ReceiptLog::new
//@contract
    ensures r.bytes == bytes
//@endfn
//@fn r_log ReceiptLog::as_bytes
//@contract
    ensures r@ == self.bytes@
//@endfn
}
/// The logs: one byte for their number, then each with its length in two bytes.
pub open spec fn log_views(v: Seq<ReceiptLog>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i].bytes@) }
#[verifier::opaque]
pub open spec fn log_list_enc(v: Seq<Seq<u8>>) -> Seq<u8> { u8::enc(v.len() as u8) + flat::<PrefixedU16>(v, 0) }
impl Format for Vec<ReceiptLog> {
    type V = Seq<Seq<u8>>;
    open spec fn vw(&self) -> Seq<Seq<u8>> { log_views(self@) }
    open spec fn ok(v: Seq<Seq<u8>>) -> bool { v.len() <= 255 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).len() <= 65535 }
    open spec fn enc(v: Seq<Seq<u8>>) -> Seq<u8> { log_list_enc(v) }
    open spec fn same(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { a == b }
}
impl Codec for Vec<ReceiptLog> {
//@fn c_logs Codec@Vec::encode trait
//@begin
    proof { reveal(log_list_enc); reveal(blob16); }
//@inv 0
    invariant Self::ok(self.vw()), 0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == self@.len(), forall|i: int| 0 <= i < __it0.v@.len() ==> *(#[trigger] __it0.v@[i]) == self@[i],
        round() ==> w@ + flat::<PrefixedU16>(self.vw(), __it0.i@) == old(w)@ + Self::enc(self.vw()),
    ensures round() ==> w@ == old(w)@ + Self::enc(self.vw()),
    decreases __it0.v@.len() - __it0.i@
//@top 0
    proof { reveal(log_list_enc); reveal(blob16); let j = __it0.i@; if j < self@.len() { assert(self.vw()[j].len() <= 65535); } }
//@endfn
//@fn c_logs Codec@Vec::decode trait
//@local Vec :: with_capacity ==> vec_with_capacity::<ReceiptLog>
//@begin
    proof { reveal(log_list_enc); }
//@inv 0
    invariant __end0 == nlogs, __i0 <= __end0, logs@.len() == __i0,
        round() ==> forall|v: Seq<Seq<u8>>, t: Seq<u8>| Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) ==> v.len() == nlogs
            && (forall|j: int| 0 <= j < __i0 ==> (#[trigger] logs@[j]).bytes@ == v[j]) && reader.rest() == flat::<PrefixedU16>(v, __i0 as int) + t,
        tight() ==> reader.rest().len() + 1 + size::<PrefixedU16>(log_views(logs@), __i0 as int) <= old(reader).rest().len(),
    decreases __end0 - __i0
//@top 0
    let ghost x0 = logs@;
    proof { reveal(log_list_enc);
        assert forall|v: Seq<Seq<u8>>, t: Seq<u8>| round() && Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) implies reader.rest() == PrefixedU16::enc(v[__i0 as int]) + (flat::<PrefixedU16>(v, __i0 + 1) + t) && v[__i0 as int].len() <= 65535 by {}
    }
//@bot 0
    proof { size_ext::<PrefixedU16>(log_views(x0), log_views(logs@), __i0 as int); }
//@end
    proof { if __result is Ok { flat_size::<PrefixedU16>(__result->Ok_0.vw(), 0); assert forall|v: Seq<Seq<u8>>, t: Seq<u8>| round() && Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) implies v == __result->Ok_0.vw() by { assert(v =~= __result->Ok_0.vw()); } } }
//@endfn
}
//@fn c_logs decode_log
//@begin
    proof { reveal(blob16); broadcast use seqs::parts_all; }
//@contract
    ensures round() ==> forall|v: Seq<u8>, t: Seq<u8>| v.len() <= 65535 && old(reader).rest() == #[trigger] (PrefixedU16::enc(v) + t) ==> r is Ok && r->Ok_0.bytes@ == v && final(reader).rest() == t,
        tight() ==> (r matches Ok(x) ==> final(reader).rest().len() + PrefixedU16::enc(x.bytes@).len() <= old(reader).rest().len()),
//@endfn
// ---------------------------------------------------------------- sets of addresses
/// A set's elements, in the order of their bytes.
pub uninterp spec fn sorted(s: Set<Seq<u8>>) -> Seq<Seq<u8>>;
/// A HashSet<Address>: a finite set of addresses. What it writes must not depend on anything else, such as the order of iteration.
#[verifier::external_body]
pub struct AddrSet { s: Vec<Address> }
impl AddrSet {
    pub uninterp spec fn elems(&self) -> Set<Seq<u8>>;
    pub open spec fn order(&self) -> Seq<Seq<u8>> { sorted(self.elems()) }
    #[verifier::external_body]
    pub fn new() -> (r: AddrSet) ensures r.order() == Seq::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.order().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, a: Address) -> (r: bool)
        ensures final(self).order().to_set() == old(self).order().to_set().insert(a.0@), final(self).order().len() <= old(self).order().len() + 1,
            forall|i: int| 0 <= i < final(self).order().len() ==> (#[trigger] final(self).order()[i]).len() == 20,
    { unimplemented!() }
    /// The elements in some order.
    #[verifier::external_body]
    pub fn collected(&self) -> (r: AddrRefs) ensures sorted(r.list().to_set()) == self.order() { unimplemented!() }
    #[verifier::external_body]
    pub fn model_iter_ref<'a>(&'a self) -> (r: VecIter<&'a Address>)
        ensures r.i@ == 0, r.v@.len() == self.order().len(), exists|l: Seq<Seq<u8>>| sorted(l.to_set()) == self.order() && l.len() == r.v@.len() && forall|i: int| 0 <= i < r.v@.len() ==> (#[trigger] r.v@[i]).0@ == l[i]
    { unimplemented!() }
}
/// A Vec<&Address> of the elements of a set.
#[verifier::external_body]
pub struct AddrRefs { s: Vec<Address> }
impl AddrRefs {
    pub uninterp spec fn list(&self) -> Seq<Seq<u8>>;
    /// Address compares by its bytes (derived): there is one sorted order of a set.
    #[verifier::external_body]
    pub fn sort(&mut self) ensures final(self).list() == sorted(old(self).list().to_set()) { unimplemented!() }
    #[verifier::external_body]
    pub fn sort_unstable(&mut self) ensures final(self).list() == sorted(old(self).list().to_set()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.list().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn model_iter_ref<'a>(&'a self) -> (r: VecIter<&'a Address>)
        ensures r.i@ == 0, r.v@.len() == self.list().len(), forall|i: int| 0 <= i < r.v@.len() ==> (#[trigger] r.v@[i]).0@ == self.list()[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn model_iter<'a>(self) -> (r: VecIter<&'a Address>)
        ensures r.i@ == 0, r.v@.len() == self.list().len(), forall|i: int| 0 <= i < r.v@.len() ==> (#[trigger] r.v@[i]).0@ == self.list()[i]
    { unimplemented!() }
}
impl Address {
    pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.0@ { &self.0 }
    /// BytesPrimitive::new: panics when the length is not the expected one
    pub fn new(v: Vec<u8>) -> (r: Address) requires v@.len() == 20 ensures r.0@ == v@ { Address(to_array::<20>(v)) }
}
#[verifier::opaque]
pub open spec fn addr_set_enc(v: Seq<Seq<u8>>) -> Seq<u8> { u16::enc(v.len() as u16) + flat::<Address>(v, 0) }
proof fn size20(v: Seq<Seq<u8>>, n: int) requires 0 <= n <= v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).len() == 20 ensures size::<Address>(v, n) == 20 * n decreases n
{ if n > 0 { size20(v, n - 1); } }
impl Format for AddrSet {
    type V = Seq<Seq<u8>>;
    open spec fn vw(&self) -> Seq<Seq<u8>> { self.order() }
    open spec fn ok(v: Seq<Seq<u8>>) -> bool { v.len() <= 65535 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).len() == 20 }
    open spec fn enc(v: Seq<Seq<u8>>) -> Seq<u8> { addr_set_enc(v) }
    open spec fn same(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { a.to_set() == b.to_set() }
}
//@src c_touch crates/host/codec/src/receipt/touched_accounts.rs
impl Codec for AddrSet {
//@fn c_touch Codec@HashSet::encode trait
//@local \.sort(?:_unstable)?_by_key \( \| (\w+) \| \1\.0 \) ==> .sort()
//@local Vec < & Address > = self\.iter \( \)\.collect \( \) ==> AddrRefs = self.collected()
//@local = self\.iter \( \)\.collect :: < Vec < [^;]*? > > \( \) ==> = self.collected()
//@begin
    proof { reveal(addr_set_enc); }
//@inv 0
    invariant Self::ok(self.vw()), 0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == self.order().len(), round() ==> forall|i: int| 0 <= i < __it0.v@.len() ==> (#[trigger] __it0.v@[i]).0@ == self.order()[i],
        round() ==> w@ + flat::<Address>(self.order(), __it0.i@) == old(w)@ + Self::enc(self.vw()),
    ensures round() ==> w@ == old(w)@ + Self::enc(self.vw()),
    decreases __it0.v@.len() - __it0.i@
//@top 0
    proof { reveal(addr_set_enc); }
//@endfn
//@fn c_touch Codec@HashSet::decode trait
//@begin
    proof { reveal(addr_set_enc); }
//@before 0
    proof { assert(touched_accounts.order() =~= Seq::empty()); assert(forall|v: Seq<Seq<u8>>| (#[trigger] v.take(0)) =~= Seq::empty()); }
//@inv 0
    invariant __end0 == len, __i0 <= __end0, touched_accounts.order().len() <= __i0, forall|i: int| 0 <= i < touched_accounts.order().len() ==> (#[trigger] touched_accounts.order()[i]).len() == 20,
        round() ==> forall|v: Seq<Seq<u8>>, t: Seq<u8>| Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) ==> v.len() == len
            && touched_accounts.order().to_set() == v.take(__i0 as int).to_set() && reader.rest() == flat::<Address>(v, __i0 as int) + t,
        tight() ==> reader.rest().len() + 2 + 20 * __i0 <= old(reader).rest().len(),
    decreases __end0 - __i0
//@top 0
    proof { reveal(addr_set_enc);
        broadcast use seqs::parts_all;
        assert forall|v: Seq<Seq<u8>>, t: Seq<u8>| round() && Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) implies reader.rest() == v[__i0 as int] + (flat::<Address>(v, __i0 + 1) + t) && v[__i0 as int].len() == 20
            && v.take(__i0 + 1).to_set() == v.take(__i0 as int).to_set().insert(v[__i0 as int]) by { take_set(v, __i0 as int); }
    }
//@end
    proof {
        assert(forall|v: Seq<Seq<u8>>| (#[trigger] v.take(v.len() as int)) =~= v);
        if __result is Ok { size20(__result->Ok_0.order(), __result->Ok_0.order().len() as int); flat_size::<Address>(__result->Ok_0.order(), 0); }
    }
//@endfn
}
proof fn take_set(v: Seq<Seq<u8>>, i: int) requires 0 <= i < v.len() ensures v.take(i + 1).to_set() == v.take(i).to_set().insert(v[i])
{
    let a = v.take(i + 1); let b = v.take(i);
    assert forall|x: Seq<u8>| a.to_set().contains(x) == b.to_set().insert(v[i]).contains(x) by {
        if a.contains(x) { let k = choose|k: int| 0 <= k < a.len() && a[k] == x; if k < i { assert(b[k] == x); } }
        if b.contains(x) { let k = choose|k: int| 0 <= k < b.len() && b[k] == x; assert(a[k] == x); }
        assert(a[i] == v[i]);
    }
    assert(a.to_set() =~= b.to_set().insert(v[i]));
}
// ---------------------------------------------------------------- failures
//@src t_err crates/host/types/src/error.rs
//@src c_err crates/host/codec/src/receipt/error.rs
//@item t_err enum:RuntimeError
//@item t_err struct:RuntimeFailure
pub open spec fn boundary_len(b: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else if boundary(b, n) { n } else { boundary_len(b, n - 1) } }
/// A message as it is stored: its longest beginning of at most 255 bytes that does not split a character.
pub open spec fn cut(b: Seq<u8>) -> Seq<u8> { b.take(boundary_len(b, if b.len() < 255 { b.len() as int } else { 255 })) }
pub uninterp spec fn boundary(b: Seq<u8>, i: int) -> bool;
#[verifier::external_body]
proof fn utf8_cut(b: Seq<u8>, i: int) requires utf8(b), 0 <= i <= b.len(), boundary(b, i) ensures utf8(b.take(i)) {}
#[verifier::external_body]
proof fn utf8_ends(b: Seq<u8>) requires utf8(b) ensures boundary(b, 0), boundary(b, b.len() as int) {}
proof fn boundary_len_ok(b: Seq<u8>, n: int) requires utf8(b), 0 <= n ensures 0 <= boundary_len(b, n) <= n, boundary(b, boundary_len(b, n)) decreases n
{ utf8_ends(b); if n > 0 && !boundary(b, n) { boundary_len_ok(b, n - 1); } }
/// A message that fits is stored whole.
proof fn short_message_is_whole(b: Seq<u8>) requires utf8(b), b.len() <= 255 ensures cut(b) == b { utf8_ends(b); assert(cut(b) =~= b); }
proof fn cut_fits(b: Seq<u8>) requires utf8(b) ensures Str::ok(cut(b)) { let n = if b.len() < 255 { b.len() as int } else { 255 }; boundary_len_ok(b, n); utf8_cut(b, boundary_len(b, n)); }
proof fn boundary_len_le(b: Seq<u8>, n: int) requires 0 <= n ensures 0 <= boundary_len(b, n) <= n decreases n { if n > 0 && !boundary(b, n) { boundary_len_le(b, n - 1); } }
pub broadcast proof fn cut_shorter(b: Seq<u8>) ensures (#[trigger] cut(b)).len() <= b.len(), cut(b).len() <= 255 { boundary_len_le(b, if b.len() < 255 { b.len() as int } else { 255 }); }
impl Str {
    #[verifier::external_body]
    pub fn is_char_boundary(&self, i: usize) -> (r: bool) ensures r == (i <= self.b@.len() && boundary(self.b@, i as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn prefix(&self, n: usize) -> (r: Str) requires n <= self.b@.len(), boundary(self.b@, n as int) ensures r.b@ == self.b@.take(n as int) { unimplemented!() }
}
pub fn min_of(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
//@fn c_err encode_msg
//@local (\w+\.len \(\))\.min \((\d+)\) ==> min_of(\1, \2)
//@local (\w+) \[\.\. (\w+)\]\.to_string \(\) ==> \1.prefix(\2)
//@contract
    requires utf8(msg.b@)
    ensures round() ==> final(w)@ == old(w)@ + Str::enc(cut(msg.b@))
//@begin
    proof { utf8_ends(msg.b@); cut_fits(msg.b@); }
//@inv 0
    invariant len <= msg.b@.len(), utf8(msg.b@), boundary_len(msg.b@, len as int) == boundary_len(msg.b@, if msg.b@.len() < 255 { msg.b@.len() as int } else { 255 }), boundary(msg.b@, 0)
    decreases len
//@endfn
pub struct ErrV { pub ty: u8, pub template: Seq<u8>, pub target: Seq<u8>, pub func: Seq<u8>, pub msg: Seq<u8> }
pub open spec fn nil() -> Seq<u8> { Seq::empty() }
impl RuntimeError {
    pub open spec fn v(&self) -> ErrV {
        match *self {
            RuntimeError::OOG => ErrV { ty: 0, template: nil(), target: nil(), func: nil(), msg: nil() },
            RuntimeError::TemplateNotFound(t) => ErrV { ty: 1, template: t.0@, target: nil(), func: nil(), msg: nil() },
            RuntimeError::AccountNotFound(a) => ErrV { ty: 2, template: nil(), target: a.0@, func: nil(), msg: nil() },
            RuntimeError::CompilationFailed { target, template, msg } => ErrV { ty: 3, template: template.0@, target: target.0@, func: nil(), msg: msg.b@ },
            RuntimeError::InstantiationFailed { target, template, msg } => ErrV { ty: 4, template: template.0@, target: target.0@, func: nil(), msg: msg.b@ },
            RuntimeError::FuncNotFound { target, template, func } => ErrV { ty: 5, template: template.0@, target: target.0@, func: func.b@, msg: nil() },
            RuntimeError::FuncFailed { target, template, func, msg } => ErrV { ty: 6, template: template.0@, target: target.0@, func: func.b@, msg: msg.b@ },
            RuntimeError::FuncNotCtor { template, func } => ErrV { ty: 7, template: template.0@, target: nil(), func: func.b@, msg: nil() },
            RuntimeError::FuncNotAllowed { target, template, func, msg } => ErrV { ty: 8, template: template.0@, target: target.0@, func: func.b@, msg: msg.b@ },
            RuntimeError::FuncInvalidSignature { target, template, func } => ErrV { ty: 9, template: template.0@, target: target.0@, func: func.b@, msg: nil() },
        }
    }
}
pub open spec fn err_body(e: ErrV) -> Seq<u8> {
    if e.ty == 0 { nil() }
    else if e.ty == 1 { TemplateAddr::enc(e.template) }
    else if e.ty == 2 { Address::enc(e.target) }
    else if e.ty == 3 || e.ty == 4 { TemplateAddr::enc(e.template) + (Address::enc(e.target) + Str::enc(cut(e.msg))) }
    else if e.ty == 5 || e.ty == 9 { TemplateAddr::enc(e.template) + (Address::enc(e.target) + Str::enc(e.func)) }
    else if e.ty == 6 || e.ty == 8 { TemplateAddr::enc(e.template) + (Address::enc(e.target) + (Str::enc(e.func) + Str::enc(cut(e.msg)))) }
    else { TemplateAddr::enc(e.template) + Str::enc(e.func) }
}
/// Each kind of failure has just its own fields; function names fit, messages may be of any length.
pub open spec fn err_ok(e: ErrV) -> bool {
    e.ty <= 9 && (if e.ty == 0 || e.ty == 2 { e.template == nil() } else { e.template.len() == 20 }) && (if e.ty == 0 || e.ty == 1 || e.ty == 7 { e.target == nil() } else { e.target.len() == 20 })
    && Str::ok(e.func) && utf8(e.msg) && (e.ty < 5 ==> e.func == nil()) && ((e.ty != 3 && e.ty != 4 && e.ty != 6 && e.ty != 8) ==> e.msg == nil())
}
pub open spec fn err_cut(e: ErrV) -> ErrV { ErrV { msg: if e.ty == 3 || e.ty == 4 || e.ty == 6 || e.ty == 8 { cut(e.msg) } else { e.msg }, ..e } }
pub open spec fn err_good(ty: int, r0: Seq<u8>, r: Result<RuntimeError, ParseError>, r1: Seq<u8>) -> bool {
    &&& round() ==> forall|e: ErrV, t: Seq<u8>| err_ok(e) && e.ty == ty && r0 == #[trigger] (err_body(e) + t) ==> r is Ok && r->Ok_0.v() == err_cut(e) && r1 == t
    &&& r matches Ok(x) ==> x.v().ty == ty && (tight() ==> r1.len() + err_body(x.v()).len() <= r0.len())
}
//@fn c_err oog
//@contract
    ensures err_good(0, old(reader).rest(), r, final(reader).rest())
//@endfn
//@fn c_err template_not_found
//@contract
    ensures err_good(1, old(reader).rest(), r, final(reader).rest())
//@endfn
//@fn c_err account_not_found
//@contract
    ensures err_good(2, old(reader).rest(), r, final(reader).rest())
//@endfn
//@fn c_err compilation_error
//@contract
    ensures err_good(3, old(reader).rest(), r, final(reader).rest())
//@begin
    proof { assert forall|b: Seq<u8>| utf8(b) implies Str::ok(#[trigger] cut(b)) by { cut_fits(b); } assert forall|b: Seq<u8>| (#[trigger] cut(b)).len() <= b.len() by { cut_shorter(b); } }
//@endfn
//@fn c_err instantiation_error
//@contract
    ensures err_good(4, old(reader).rest(), r, final(reader).rest())
//@begin
    proof { assert forall|b: Seq<u8>| utf8(b) implies Str::ok(#[trigger] cut(b)) by { cut_fits(b); } assert forall|b: Seq<u8>| (#[trigger] cut(b)).len() <= b.len() by { cut_shorter(b); } }
//@endfn
//@fn c_err func_not_found
//@contract
    ensures err_good(5, old(reader).rest(), r, final(reader).rest())
//@endfn
//@fn c_err func_failed
//@contract
    ensures err_good(6, old(reader).rest(), r, final(reader).rest())
//@begin
    proof { assert forall|b: Seq<u8>| utf8(b) implies Str::ok(#[trigger] cut(b)) by { cut_fits(b); } assert forall|b: Seq<u8>| (#[trigger] cut(b)).len() <= b.len() by { cut_shorter(b); } }
//@endfn
//@fn c_err func_not_ctor
//@contract
    ensures err_good(7, old(reader).rest(), r, final(reader).rest())
//@endfn
//@fn c_err func_not_allowed
//@contract
    ensures err_good(8, old(reader).rest(), r, final(reader).rest())
//@begin
    proof { assert forall|b: Seq<u8>| utf8(b) implies Str::ok(#[trigger] cut(b)) by { cut_fits(b); } assert forall|b: Seq<u8>| (#[trigger] cut(b)).len() <= b.len() by { cut_shorter(b); } }
//@endfn
//@fn c_err func_invalid_sig
//@contract
    ensures err_good(9, old(reader).rest(), r, final(reader).rest())
//@endfn
//@fn c_err encode_err_type
//@contract
    ensures round() ==> final(w)@ == old(w)@ + u8::enc(err.v().ty)
//@endfn
impl RuntimeFailure {
//@fn t_err RuntimeFailure::new
//@local impl Into < Vec < ReceiptLog > > ==> Vec<ReceiptLog>
//@local \.into \(\) ==>
//@contract
    ensures r.err == err, r.logs == logs
//@endfn
}
pub struct FailV { pub err: ErrV, pub logs: Seq<Seq<u8>> }
#[verifier::opaque]
pub open spec fn fail_enc(v: FailV) -> Seq<u8> { u8::enc(v.err.ty) + (<Vec<ReceiptLog> as Format>::enc(v.logs) + err_body(v.err)) }
impl Format for RuntimeFailure {
    type V = FailV;
    open spec fn vw(&self) -> FailV { FailV { err: self.err.v(), logs: self.logs.vw() } }
    open spec fn ok(v: FailV) -> bool { err_ok(v.err) && <Vec<ReceiptLog> as Format>::ok(v.logs) }
    open spec fn enc(v: FailV) -> Seq<u8> { fail_enc(v) }
    open spec fn same(a: FailV, b: FailV) -> bool { a.err == err_cut(b.err) && a.logs == b.logs }
}
impl Codec for RuntimeFailure {
//@fn c_err Codec@RuntimeFailure::encode trait
//@local & msg ==> msg
//@begin
    proof { reveal(fail_enc); }
//@endfn
//@fn c_err Codec@RuntimeFailure::decode trait
//@begin
    proof { reveal(fail_enc); }
//@endfn
}
// ---------------------------------------------------------------- receipts
//@src r_dep crates/host/types/src/receipt/deploy.rs
//@src r_spawn crates/host/types/src/receipt/spawn.rs
//@src r_call crates/host/types/src/receipt/call.rs
//@src r_mod crates/host/types/src/receipt/mod.rs
//@src c_rec crates/host/codec/src/receipt/mod.rs
//@src c_dep crates/host/codec/src/receipt/deploy.rs
//@src c_spawn crates/host/codec/src/receipt/spawn.rs
//@src c_call crates/host/codec/src/receipt/call.rs
//@item r_dep struct:DeployReceipt
//@item r_spawn struct:SpawnReceipt
//@item r_call struct:CallReceipt
//@item r_mod enum:Receipt
//@item c_rec const:TY_DEPLOY
//@item c_rec const:TY_SPAWN
//@item c_rec const:TY_CALL
//@sub (super|crate :: receipt) :: TY_ ==> TY_
pub open spec fn logs_ok(v: Seq<Seq<u8>>) -> bool { <Vec<ReceiptLog> as Format>::ok(v) }
pub open spec fn logs_enc(v: Seq<Seq<u8>>) -> Seq<u8> { <Vec<ReceiptLog> as Format>::enc(v) }
pub open spec fn err_v(e: Option<RuntimeError>) -> Option<ErrV> { match e { Some(e) => Some(e.v()), None => None } }
pub open spec fn opt_cut(e: Option<ErrV>) -> Option<ErrV> { match e { Some(e) => Some(err_cut(e)), None => None } }
pub struct DepV { pub version: u16, pub success: bool, pub error: Option<ErrV>, pub addr: Option<Seq<u8>>, pub gas: Option<u64>, pub logs: Seq<Seq<u8>> }
#[verifier::opaque]
pub open spec fn deploy_enc(v: DepV) -> Seq<u8> {
        u8::enc(TY_DEPLOY) + (u16::enc(v.version) + (bool::enc(v.success) + if v.success { TemplateAddr::enc(v.addr->Some_0) + (Gas::enc(v.gas) + logs_enc(v.logs)) } else { RuntimeFailure::enc(FailV { err: v.error->Some_0, logs: v.logs }) }))
}
proof fn deploy_enc_first(v: DepV, t: Seq<u8>) ensures (deploy_enc(v) + t).len() > 0, (deploy_enc(v) + t)[0] == TY_DEPLOY { reveal(deploy_enc); }
impl Format for DeployReceipt {
    type V = DepV;
    open spec fn vw(&self) -> DepV { DepV { version: self.version, success: self.success, error: err_v(self.error), addr: match self.addr { Some(a) => Some(a.0@), None => None }, gas: self.gas_used.0, logs: self.logs.vw() } }
    /// What the runtime makes: the fields of a success are there, or an error and nothing else.
    open spec fn ok(v: DepV) -> bool {
        v.version == 0 && logs_ok(v.logs) && if v.success { v.error is None && v.addr is Some && TemplateAddr::ok(v.addr->Some_0) } else { v.error is Some && err_ok(v.error->Some_0) && v.addr is None && v.gas is None }
    }
    open spec fn enc(v: DepV) -> Seq<u8> { deploy_enc(v) }
    open spec fn same(a: DepV, b: DepV) -> bool { DepV { gas: norm(a.gas), ..a } == DepV { gas: norm(b.gas), error: opt_cut(b.error), ..b } }
}
impl DeployReceipt {
//@fn r_dep DeployReceipt::from_err
//@contract
    ensures r.version == 0, !r.success, r.error == Some(error), r.addr is None, r.gas_used.0 is None, r.logs == logs
//@endfn
//@fn r_dep DeployReceipt::template_addr
//@contract
    requires self.addr is Some
    ensures *r == self.addr->Some_0
//@endfn
//@fn r_dep DeployReceipt::error
//@contract
    requires self.error is Some
    ensures *r == self.error->Some_0
//@endfn
}
impl Codec for DeployReceipt {
//@fn c_dep Codec@DeployReceipt::encode trait
//@begin
    proof { reveal(deploy_enc); }
//@endfn
//@fn c_dep Codec@DeployReceipt::decode trait
//@begin
    proof { reveal(deploy_enc); }
//@endfn
}
pub struct SpawnRecV { pub version: u16, pub success: bool, pub error: Option<ErrV>, pub addr: Option<Seq<u8>>, pub state: Option<Seq<u8>>, pub data: Option<Seq<u8>>, pub gas: Option<u64>, pub touched: Seq<Seq<u8>>, pub logs: Seq<Seq<u8>> }
pub open spec fn vec_v(v: Option<Vec<u8>>) -> Option<Seq<u8>> { match v { Some(x) => Some(x@), None => None } }
#[verifier::opaque]
pub open spec fn spawn_enc(v: SpawnRecV) -> Seq<u8> {
        u8::enc(TY_SPAWN) + (u16::enc(v.version) + (bool::enc(v.success) + if v.success { Address::enc(v.addr->Some_0) + (State::enc(v.state->Some_0) + (PrefixedU16::enc(v.data->Some_0) + (Gas::enc(v.gas) + (AddrSet::enc(v.touched) + logs_enc(v.logs))))) }
            else { RuntimeFailure::enc(FailV { err: v.error->Some_0, logs: v.logs }) }))
}
proof fn spawn_enc_first(v: SpawnRecV, t: Seq<u8>) ensures (spawn_enc(v) + t).len() > 0, (spawn_enc(v) + t)[0] == TY_SPAWN { reveal(spawn_enc); }
impl Format for SpawnReceipt {
    type V = SpawnRecV;
    open spec fn vw(&self) -> SpawnRecV { SpawnRecV { version: self.version, success: self.success, error: err_v(self.error), addr: match self.account_addr { Some(a) => Some(a.0@), None => None },
        state: match self.init_state { Some(a) => Some(a.0@), None => None }, data: vec_v(self.returndata), gas: self.gas_used.0, touched: self.touched_accounts.order(), logs: self.logs.vw() } }
    open spec fn ok(v: SpawnRecV) -> bool {
        v.version == 0 && logs_ok(v.logs) && AddrSet::ok(v.touched) && if v.success { v.error is None && v.addr is Some && Address::ok(v.addr->Some_0) && v.state is Some && State::ok(v.state->Some_0) && v.data is Some && PrefixedU16::ok(v.data->Some_0) }
            else { v.error is Some && err_ok(v.error->Some_0) && v.addr is None && v.state is None && v.data is None && v.gas is None && v.touched == Seq::<Seq<u8>>::empty() }
    }
    open spec fn enc(v: SpawnRecV) -> Seq<u8> { spawn_enc(v) }
    open spec fn same(a: SpawnRecV, b: SpawnRecV) -> bool { AddrSet::same(a.touched, b.touched) && SpawnRecV { gas: norm(a.gas), touched: b.touched, ..a } == SpawnRecV { gas: norm(b.gas), error: opt_cut(b.error), ..b } }
}
impl SpawnReceipt {
//@fn r_spawn SpawnReceipt::from_err
//@contract
    ensures r.version == 0, !r.success, r.error == Some(error), r.account_addr is None, r.init_state is None, r.returndata is None, r.gas_used.0 is None, r.touched_accounts.order() == Seq::<Seq<u8>>::empty(), r.logs == logs
//@endfn
//@fn r_spawn SpawnReceipt::error
//@contract
    requires self.error is Some
    ensures *r == self.error->Some_0
//@endfn
//@fn r_spawn SpawnReceipt::account_addr
//@contract
    requires self.account_addr is Some
    ensures *r == self.account_addr->Some_0
//@endfn
//@fn r_spawn SpawnReceipt::init_state
//@contract
    requires self.init_state is Some
    ensures *r == self.init_state->Some_0
//@endfn
//@fn r_spawn SpawnReceipt::returndata
//@contract
    requires self.returndata is Some
    ensures *r == self.returndata->Some_0
//@endfn
//@fn r_spawn SpawnReceipt::gas_used
//@contract
    ensures r == self.gas_used
//@endfn
//@fn r_spawn SpawnReceipt::logs
//@local & \[ReceiptLog\] ==> &Vec<ReceiptLog>
//@contract
    ensures *r == self.logs
//@endfn
}
impl Codec for SpawnReceipt {
//@fn c_spawn Codec@SpawnReceipt::encode trait
//@begin
    proof { reveal(spawn_enc); }
//@endfn
//@fn c_spawn Codec@SpawnReceipt::decode trait
//@begin
    proof { reveal(spawn_enc); }
//@local addr\.into \(\) ==> addr
//@endfn
}
pub struct CallRecV { pub version: u16, pub success: bool, pub error: Option<ErrV>, pub state: Option<Seq<u8>>, pub data: Option<Seq<u8>>, pub gas: Option<u64>, pub touched: Seq<Seq<u8>>, pub logs: Seq<Seq<u8>> }
#[verifier::opaque]
pub open spec fn call_enc(v: CallRecV) -> Seq<u8> {
        u8::enc(TY_CALL) + (u16::enc(v.version) + (bool::enc(v.success) + if v.success { State::enc(v.state->Some_0) + (PrefixedU16::enc(v.data->Some_0) + (Gas::enc(v.gas) + (AddrSet::enc(v.touched) + logs_enc(v.logs)))) }
            else { RuntimeFailure::enc(FailV { err: v.error->Some_0, logs: v.logs }) }))
}
proof fn call_enc_first(v: CallRecV, t: Seq<u8>) ensures (call_enc(v) + t).len() > 0, (call_enc(v) + t)[0] == TY_CALL { reveal(call_enc); }
impl Format for CallReceipt {
    type V = CallRecV;
    open spec fn vw(&self) -> CallRecV { CallRecV { version: self.version, success: self.success, error: err_v(self.error),
        state: match self.new_state { Some(a) => Some(a.0@), None => None }, data: vec_v(self.returndata), gas: self.gas_used.0, touched: self.touched_accounts.order(), logs: self.logs.vw() } }
    open spec fn ok(v: CallRecV) -> bool {
        v.version == 0 && logs_ok(v.logs) && AddrSet::ok(v.touched) && if v.success { v.error is None && v.state is Some && State::ok(v.state->Some_0) && v.data is Some && PrefixedU16::ok(v.data->Some_0) }
            else { v.error is Some && err_ok(v.error->Some_0) && v.state is None && v.data is None && v.gas is None && v.touched == Seq::<Seq<u8>>::empty() }
    }
    open spec fn enc(v: CallRecV) -> Seq<u8> { call_enc(v) }
    open spec fn same(a: CallRecV, b: CallRecV) -> bool { AddrSet::same(a.touched, b.touched) && CallRecV { gas: norm(a.gas), touched: b.touched, ..a } == CallRecV { gas: norm(b.gas), error: opt_cut(b.error), ..b } }
}
impl CallReceipt {
//@fn r_call CallReceipt::from_err
//@contract
    ensures r.version == 0, !r.success, r.error == Some(err), r.new_state is None, r.returndata is None, r.gas_used.0 is None, r.touched_accounts.order() == Seq::<Seq<u8>>::empty(), r.logs == logs
//@endfn
//@fn r_call CallReceipt::error
//@contract
    requires self.error is Some
    ensures *r == self.error->Some_0
//@endfn
//@fn r_call CallReceipt::new_state
//@contract
    requires self.new_state is Some
    ensures *r == self.new_state->Some_0
//@endfn
//@fn r_call CallReceipt::returndata
//@contract
    requires self.returndata is Some
    ensures *r == self.returndata->Some_0
//@endfn
//@fn r_call CallReceipt::logs
//@local & \[ReceiptLog\] ==> &Vec<ReceiptLog>
//@contract
    ensures *r == self.logs
//@endfn
}
impl Codec for CallReceipt {
//@fn c_call Codec@CallReceipt::encode trait
//@begin
    proof { reveal(call_enc); }
//@local self\.logs \(\) ==> self.logs().dup()
//@endfn
//@fn c_call Codec@CallReceipt::decode trait
//@begin
    proof { reveal(call_enc); }
//@endfn
}
pub enum RecV { Deploy(DepV), Spawn(SpawnRecV), Call(CallRecV) }
impl Format for Receipt {
    type V = RecV;
    open spec fn vw(&self) -> RecV { match *self { Receipt::Deploy(r) => RecV::Deploy(r.vw()), Receipt::Spawn(r) => RecV::Spawn(r.vw()), Receipt::Call(r) => RecV::Call(r.vw()) } }
    open spec fn ok(v: RecV) -> bool { match v { RecV::Deploy(r) => DeployReceipt::ok(r), RecV::Spawn(r) => SpawnReceipt::ok(r), RecV::Call(r) => CallReceipt::ok(r) } }
    open spec fn enc(v: RecV) -> Seq<u8> { match v { RecV::Deploy(r) => DeployReceipt::enc(r), RecV::Spawn(r) => SpawnReceipt::enc(r), RecV::Call(r) => CallReceipt::enc(r) } }
    open spec fn same(a: RecV, b: RecV) -> bool {
        match b { RecV::Deploy(r) => a is Deploy && DeployReceipt::same(a->Deploy_0, r), RecV::Spawn(r) => a is Spawn && SpawnReceipt::same(a->Spawn_0, r), RecV::Call(r) => a is Call && CallReceipt::same(a->Call_0, r) }
    }
}
impl Codec for Receipt {
//@fn c_rec Codec@Receipt::encode trait
//@endfn
//@fn c_rec Codec@Receipt::decode trait
//@begin
    proof {
        assert forall|v: DepV, t: Seq<u8>| #![trigger DeployReceipt::enc(v) + t] (DeployReceipt::enc(v) + t).len() > 0 && (DeployReceipt::enc(v) + t)[0] == TY_DEPLOY by { deploy_enc_first(v, t); }
        assert forall|v: SpawnRecV, t: Seq<u8>| #![trigger SpawnReceipt::enc(v) + t] (SpawnReceipt::enc(v) + t).len() > 0 && (SpawnReceipt::enc(v) + t)[0] == TY_SPAWN by { spawn_enc_first(v, t); }
        assert forall|v: CallRecV, t: Seq<u8>| #![trigger CallReceipt::enc(v) + t] (CallReceipt::enc(v) + t).len() > 0 && (CallReceipt::enc(v) + t)[0] == TY_CALL by { call_enc_first(v, t); }
    }
//@endfn
}
// ---------------------------------------------------------------- sections
//@src s_sec crates/host/types/src/template/section.rs
//@src s_code crates/host/types/src/template/code.rs
//@src s_data crates/host/types/src/template/data.rs
//@src s_ctors crates/host/types/src/template/ctors.rs
//@src s_header crates/host/types/src/template/header.rs
//@src s_deploy crates/host/types/src/template/deploy.rs
//@src s_tmpl crates/host/types/src/template/mod.rs
//@src c_code crates/host/codec/src/section/sections/code.rs
//@src c_data crates/host/codec/src/section/sections/data.rs
//@src c_ctors crates/host/codec/src/section/sections/ctors.rs
//@src c_header crates/host/codec/src/section/sections/header.rs
//@src c_deploy crates/host/codec/src/section/sections/deploy.rs
//@src c_schema crates/host/codec/src/section/sections/schema.rs
//@src c_api crates/host/codec/src/section/sections/api.rs
//@src c_prev crates/host/codec/src/section/preview.rs
//@src c_enc crates/host/codec/src/section/encode.rs
//@src c_dec crates/host/codec/src/section/decode.rs
//@src c_tmpl crates/host/codec/src/template.rs
//@src l_fixed crates/host/layout/src/fixed.rs
//@src l_var crates/host/layout/src/var.rs
//@src l_lib crates/host/layout/src/lib.rs
//@item-eq s_sec enum:SectionKind
//@item cod const:SECTION_KIND_CODE_SECTION
//@item cod const:SECTION_KIND_DATA_SECTION
//@item cod const:SECTION_KIND_CTORS_SECTION
//@item cod const:SECTION_KIND_SCHEMA_SECTION
//@item cod const:SECTION_KIND_API_SECTION
//@item cod const:SECTION_KIND_HEADER_SECTION
//@item cod const:SECTION_KIND_DEPLOY_SECTION
pub open spec fn kind_code(k: SectionKind) -> u16 {
    match k {
        SectionKind::Code => SECTION_KIND_CODE_SECTION, SectionKind::Data => SECTION_KIND_DATA_SECTION, SectionKind::Ctors => SECTION_KIND_CTORS_SECTION, SectionKind::Schema => SECTION_KIND_SCHEMA_SECTION,
        SectionKind::Api => SECTION_KIND_API_SECTION, SectionKind::Header => SECTION_KIND_HEADER_SECTION, SectionKind::Deploy => SECTION_KIND_DEPLOY_SECTION,
    }
}
impl Format for SectionKind {
    type V = SectionKind;
    open spec fn vw(&self) -> SectionKind { *self }
    open spec fn ok(v: SectionKind) -> bool { true }
    open spec fn enc(v: SectionKind) -> Seq<u8> { u16::enc(kind_code(v)) }
    open spec fn same(a: SectionKind, b: SectionKind) -> bool { a == b }
}
impl Codec for SectionKind {
//@fn cod Codec@SectionKind::encode trait
//@endfn
//@fn cod Codec@SectionKind::decode trait
//@endfn
}
//@item c_prev struct:SectionPreview
impl SectionPreview {
//@fn c_prev SectionPreview::new
//@contract
    ensures r.kind == kind, r.byte_size == byte_size
//@endfn
//@fn c_prev SectionPreview::kind
//@contract
    ensures r == self.kind
//@endfn
//@fn c_prev SectionPreview::byte_size
//@contract
    ensures r == self.byte_size
//@endfn
}
pub struct PrevV { pub kind: SectionKind, pub byte_size: u32 }
impl Format for SectionPreview {
    type V = PrevV;
    open spec fn vw(&self) -> PrevV { PrevV { kind: self.kind, byte_size: self.byte_size } }
    open spec fn ok(v: PrevV) -> bool { true }
    open spec fn enc(v: PrevV) -> Seq<u8> { SectionKind::enc(v.kind) + u32::enc(v.byte_size) }
    open spec fn same(a: PrevV, b: PrevV) -> bool { a == b }
}
impl Codec for SectionPreview {
//@fn c_prev Codec@SectionPreview::encode trait
//@local u32 :: from ==>
//@endfn
//@fn c_prev Codec@SectionPreview::decode trait
//@endfn
}
// code
#[derive(Clone, Copy)]
//@item t_gas enum:GasMode
#[derive(Clone, Copy)]
//@item s_code enum:CodeKind
//@item s_code struct:CodeSection
//@item c_code const:WASM
//@item c_code const:GAS_MODE_FIXED
impl Format for CodeKind {
    type V = CodeKind;
    open spec fn vw(&self) -> CodeKind { *self }
    open spec fn ok(v: CodeKind) -> bool { true }
    open spec fn enc(v: CodeKind) -> Seq<u8> { u16::enc(WASM) }
    open spec fn same(a: CodeKind, b: CodeKind) -> bool { a == b }
}
impl Codec for CodeKind {
//@fn c_code Codec@CodeKind::encode trait
//@endfn
//@fn c_code Codec@CodeKind::decode trait
//@endfn
}
impl Format for GasMode {
    type V = GasMode;
    open spec fn vw(&self) -> GasMode { *self }
    open spec fn ok(v: GasMode) -> bool { v is Fixed }
    open spec fn enc(v: GasMode) -> Seq<u8> { u64::enc(GAS_MODE_FIXED) }
    open spec fn same(a: GasMode, b: GasMode) -> bool { a == b }
}
impl Codec for GasMode {
//@fn c_code Codec@GasMode::encode trait
//@endfn
//@fn c_code Codec@GasMode::decode trait
//@endfn
}
impl CodeSection {
//@fn s_code CodeSection::new
//@contract
    ensures r.kind == kind, r.code == code, r.flags == flags, r.gas_mode == gas_mode, r.svm_version == svm_version
//@endfn
//@fn s_code CodeSection::kind
//@contract
    ensures r == self.kind
//@endfn
//@fn s_code CodeSection::flags
//@contract
    ensures r == self.flags
//@endfn
//@fn s_code CodeSection::gas_mode
//@contract
    ensures r == self.gas_mode
//@endfn
//@fn s_code CodeSection::svm_version
//@contract
    ensures r == self.svm_version
//@endfn
//@fn s_code CodeSection::code
//@local & \[u8\] ==> &Vec<u8>
//@contract
    ensures *r == self.code
//@endfn
}
pub struct CodeV { pub kind: CodeKind, pub svm_version: u32, pub code: Seq<u8>, pub flags: u64, pub gas_mode: GasMode }
impl Format for CodeSection {
    type V = CodeV;
    open spec fn vw(&self) -> CodeV { CodeV { kind: self.kind, svm_version: self.svm_version, code: self.code@, flags: self.flags, gas_mode: self.gas_mode } }
    open spec fn ok(v: CodeV) -> bool { v.gas_mode is Fixed && PrefixedU32::ok(v.code) }
    open spec fn enc(v: CodeV) -> Seq<u8> { CodeKind::enc(v.kind) + (u64::enc(v.flags) + (GasMode::enc(v.gas_mode) + (u32::enc(v.svm_version) + PrefixedU32::enc(v.code)))) }
    open spec fn same(a: CodeV, b: CodeV) -> bool { a == b }
}
impl Codec for CodeSection {
//@fn c_code Codec@CodeSection::encode trait
//@endfn
//@fn c_code Codec@CodeSection::decode trait
//@endfn
}
// header
//@item s_header struct:HeaderSection
impl HeaderSection {
//@fn s_header HeaderSection::new
//@contract
    ensures r.code_version == code_version, r.name == name, r.desc == desc
//@endfn
//@fn s_header HeaderSection::desc
//@contract
    ensures *r == self.desc
//@endfn
//@fn s_header HeaderSection::name
//@contract
    ensures *r == self.name
//@endfn
//@fn s_header HeaderSection::code_version
//@contract
    ensures r == self.code_version
//@endfn
}
pub struct HeadV { pub name: Seq<u8>, pub desc: Seq<u8>, pub code_version: u32 }
impl Format for HeaderSection {
    type V = HeadV;
    open spec fn vw(&self) -> HeadV { HeadV { name: self.name.b@, desc: self.desc.b@, code_version: self.code_version } }
    open spec fn ok(v: HeadV) -> bool { Str::ok(v.name) && Str::ok(v.desc) }
    open spec fn enc(v: HeadV) -> Seq<u8> { u32::enc(v.code_version) + (Str::enc(v.name) + Str::enc(v.desc)) }
    open spec fn same(a: HeadV, b: HeadV) -> bool { a == b }
}
impl Codec for HeaderSection {
//@fn c_header Codec@HeaderSection::encode trait
//@endfn
//@fn c_header Codec@HeaderSection::decode trait
//@endfn
}
// deployment
//@item s_deploy struct:DeploySection
impl DeploySection {
//@fn s_deploy DeploySection::new
//@contract
    ensures r.tx_id == tx_id, r.layer == layer, r.deployer == deployer, r.template == template
//@endfn
//@fn s_deploy DeploySection::tx_id
//@contract
    ensures *r == self.tx_id
//@endfn
//@fn s_deploy DeploySection::layer
//@contract
    ensures r == self.layer
//@endfn
//@fn s_deploy DeploySection::deployer
//@contract
    ensures *r == self.deployer
//@endfn
//@fn s_deploy DeploySection::template
//@contract
    ensures *r == self.template
//@endfn
}
pub struct DeplV { pub tx_id: Seq<u8>, pub layer: u64, pub deployer: Seq<u8>, pub template: Seq<u8> }
impl Format for DeploySection {
    type V = DeplV;
    open spec fn vw(&self) -> DeplV { DeplV { tx_id: self.tx_id.0@, layer: self.layer.0, deployer: self.deployer.0@, template: self.template.0@ } }
    open spec fn ok(v: DeplV) -> bool { TransactionId::ok(v.tx_id) && Address::ok(v.deployer) && TemplateAddr::ok(v.template) }
    open spec fn enc(v: DeplV) -> Seq<u8> { TransactionId::enc(v.tx_id) + (u64::enc(v.layer) + (Address::enc(v.deployer) + TemplateAddr::enc(v.template))) }
    open spec fn same(a: DeplV, b: DeplV) -> bool { a == b }
}
impl Codec for DeploySection {
//@fn c_deploy Codec@DeploySection::encode trait
//@endfn
//@fn c_deploy Codec@DeploySection::decode trait
//@endfn
}
// constructors
//@item s_ctors struct:CtorsSection
impl CtorsSection {
//@fn s_ctors CtorsSection::with_capacity
//@contract
    requires capacity <= 0x10000
    ensures r.ctors@ == Seq::<Str>::empty()
//@endfn
//@fn s_ctors CtorsSection::push
//@contract
    ensures final(self).ctors@ == old(self).ctors@.push(ctor)
//@endfn
//@fn s_ctors CtorsSection::ctors
//@local & \[String\] ==> &Vec<Str>
//@contract
    ensures *r == self.ctors
//@endfn
}
impl Format for CtorsSection {
    type V = Seq<Seq<u8>>;
    open spec fn vw(&self) -> Seq<Seq<u8>> { views(self.ctors@) }
    open spec fn ok(v: Seq<Seq<u8>>) -> bool { v.len() < 255 && forall|i: int| 0 <= i < v.len() ==> Str::ok(#[trigger] v[i]) }
    open spec fn enc(v: Seq<Seq<u8>>) -> Seq<u8> { u8::enc(v.len() as u8) + flat::<Str>(v, 0) }
    open spec fn same(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { a == b }
}
impl Codec for CtorsSection {
//@fn c_ctors Codec@CtorsSection::encode trait
//@inv 0
    invariant Self::ok(self.vw()), 0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == self.ctors@.len(), forall|i: int| 0 <= i < __it0.v@.len() ==> *(#[trigger] __it0.v@[i]) == self.ctors@[i],
        round() ==> w@ + flat::<Str>(self.vw(), __it0.i@) == old(w)@ + Self::enc(self.vw()),
    ensures round() ==> w@ == old(w)@ + Self::enc(self.vw()),
    decreases __it0.v@.len() - __it0.i@
//@top 0
    proof { let j = __it0.i@; if j < self.ctors@.len() { assert(Str::ok(self.vw()[j])); } }
//@endfn
//@fn c_ctors Codec@CtorsSection::decode trait
//@inv 0
    invariant __end0 == num_ctors, __i0 <= __end0, section.ctors@.len() == __i0, num_ctors <= 255,
        round() ==> forall|v: Seq<Seq<u8>>, t: Seq<u8>| Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) ==> v.len() == num_ctors
            && (forall|j: int| 0 <= j < __i0 ==> (#[trigger] section.ctors@[j]).b@ == v[j]) && reader.rest() == flat::<Str>(v, __i0 as int) + t,
        tight() ==> reader.rest().len() + 1 + size::<Str>(views(section.ctors@), __i0 as int) <= old(reader).rest().len(),
    decreases __end0 - __i0
//@top 0
    let ghost x0 = section.ctors@;
    proof {
        assert forall|v: Seq<Seq<u8>>, t: Seq<u8>| round() && Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) implies reader.rest() == Str::enc(v[__i0 as int]) + (flat::<Str>(v, __i0 + 1) + t) && Str::ok(v[__i0 as int]) by {}
    }
//@bot 0
    proof { size_ext::<Str>(views(x0), views(section.ctors@), __i0 as int); }
//@end
    proof { if __result is Ok { flat_size::<Str>(__result->Ok_0.vw(), 0); assert forall|v: Seq<Seq<u8>>, t: Seq<u8>| round() && Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) implies v == __result->Ok_0.vw() by { assert(v =~= __result->Ok_0.vw()); } } }
//@endfn
}
// no encoding yet: never accepted
pub struct SchemaSection { pub vars: () }
//@src s_api crates/host/types/src/template/api.rs
//@item s_api struct:ApiSection
impl Format for SchemaSection {
    type V = ();
    open spec fn vw(&self) -> () { () }
    open spec fn ok(v: ()) -> bool { false }
    open spec fn enc(v: ()) -> Seq<u8> { Seq::empty() }
    open spec fn same(a: (), b: ()) -> bool { true }
}
impl Codec for SchemaSection {
//@fn c_schema Codec@SchemaSection::encode trait uncallable
//@local \b_w\b ==> w
//@endfn
//@fn c_schema Codec@SchemaSection::decode trait
//@local \b_reader\b ==> reader
//@endfn
}
impl Format for ApiSection {
    type V = ();
    open spec fn vw(&self) -> () { () }
    open spec fn ok(v: ()) -> bool { false }
    open spec fn enc(v: ()) -> Seq<u8> { Seq::empty() }
    open spec fn same(a: (), b: ()) -> bool { true }
}
impl Codec for ApiSection {
//@fn c_api Codec@ApiSection::encode trait uncallable
//@local \b_w\b ==> w
//@endfn
//@fn c_api Codec@ApiSection::decode trait
//@local \b_reader\b ==> reader
//@endfn
}
// ---------------------------------------------------------------- layouts
//@item l_var type:Id
#[derive(Clone, Copy)]
//@item l_var struct:RawVar
//@item l_fixed struct:FixedLayout
#[derive(Clone, Copy)]
//@item l_lib enum:LayoutKind
//@item l_lib enum:Layout
//@item c_data const:FIXED
pub open spec fn contiguous(v: Seq<RawVar>, first: int) -> bool {
    forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).id == first + i
        && v[i].offset == (if i == 0 { 0 } else { v[i - 1].offset + v[i - 1].byte_size })
}
pub open spec fn total(s: Seq<u32>, n: int) -> int decreases n { if n <= 0 { 0 } else { total(s, n - 1) + s[n - 1] } }
proof fn total_mono(s: Seq<u32>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures total(s, a) <= total(s, b)
    decreases b - a
{ if a < b { total_mono(s, a, b - 1); } }
proof fn total_bound(s: Seq<u32>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) <= 65535
    ensures total(s, n) <= 65535 * n
    decreases n
{ if n > 0 { total_bound(s, n - 1); } }
proof fn same_vars(a: Seq<RawVar>, b: Seq<RawVar>, first: int, n: int)
    requires contiguous(a, first), contiguous(b, first), 0 <= n <= a.len(), a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).byte_size == b[i].byte_size
    ensures forall|i: int| 0 <= i < n ==> (#[trigger] a[i]) == b[i]
    decreases n
{ if n > 0 { same_vars(a, b, first, n - 1); assert(a[n - 1].id == b[n - 1].id); if n > 1 { assert(a[n - 2] == b[n - 2]); } assert(a[n - 1] == b[n - 1]); } }
//@sub \+= byte_size\b ==> += *byte_size
impl FixedLayout {
//@fn l_fixed FixedLayout::from_byte_sizes
//@contract
    requires total(lengths@, lengths@.len() as int) <= u32::MAX, first + lengths@.len() <= u32::MAX + 1,
    ensures r.first == Some(first), r.vars@.len() == lengths@.len(), contiguous(r.vars@, first as int),
        forall|i: int| 0 <= i < lengths@.len() ==> (#[trigger] r.vars@[i]).byte_size == lengths@[i],
//@inv 0
    invariant
        total(lengths@, lengths@.len() as int) <= u32::MAX, first + lengths@.len() <= u32::MAX + 1,
        0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == lengths@.len(), forall|i: int| 0 <= i < __it0.v@.len() ==> *(#[trigger] __it0.v@[i]) == lengths@[i],
        vars@.len() == __it0.i@, offset == total(lengths@, __it0.i@), contiguous(vars@, first as int),
        forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).byte_size == lengths@[i] && vars@[i].offset == total(lengths@, i),
    ensures vars@.len() == lengths@.len(), contiguous(vars@, first as int), forall|i: int| 0 <= i < vars@.len() ==> (#[trigger] vars@[i]).byte_size == lengths@[i],
    decreases __it0.v@.len() - __it0.i@
//@top 0
    proof { let j = __it0.i@; if j < lengths@.len() { total_mono(lengths@, j + 1, lengths@.len() as int); assert(total(lengths@, j + 1) == total(lengths@, j) + lengths@[j]); } }
//@endfn
//@fn l_fixed FixedLayout::first
//@contract
    requires self.first is Some
    ensures r == self.first->Some_0
//@endfn
//@fn l_fixed FixedLayout::len
//@contract
    ensures r == self.vars@.len()
//@endfn
    /// FixedLayout::iter
    pub fn model_iter_ref<'a>(&'a self) -> (r: VecIter<&'a RawVar>)
        ensures r.i@ == 0, r.v@.len() == self.vars@.len(), forall|i: int| 0 <= i < r.v@.len() ==> *(#[trigger] r.v@[i]) == self.vars@[i]
    { self.vars.model_iter_ref() }
}
/// FixedLayout::from_byte_sizes, whose totals fit
fn small_layout(first: u32, lengths: &Vec<u32>) -> (r: FixedLayout)
    requires lengths@.len() <= 65535, forall|i: int| 0 <= i < lengths@.len() ==> (#[trigger] lengths@[i]) <= 65535, first + lengths@.len() <= u32::MAX + 1
    ensures r.first == Some(first), r.vars@.len() == lengths@.len(), contiguous(r.vars@, first as int), forall|i: int| 0 <= i < lengths@.len() ==> (#[trigger] r.vars@[i]).byte_size == lengths@[i]
{
    proof { total_bound(lengths@, lengths@.len() as int); assert(65535 * lengths@.len() <= 65535 * 65535) by (nonlinear_arith) requires lengths@.len() <= 65535; }
    FixedLayout::from_byte_sizes(first, lengths)
}
impl Layout {
//@fn l_lib Layout::kind
//@contract
    ensures r is Fixed
//@endfn
//@fn l_lib Layout::as_fixed
//@contract
    ensures *self == Layout::Fixed(*r)
//@endfn
}
impl Format for LayoutKind {
    type V = LayoutKind;
    open spec fn vw(&self) -> LayoutKind { *self }
    open spec fn ok(v: LayoutKind) -> bool { true }
    open spec fn enc(v: LayoutKind) -> Seq<u8> { u16::enc(FIXED) }
    open spec fn same(a: LayoutKind, b: LayoutKind) -> bool { a == b }
}
impl Codec for LayoutKind {
//@fn c_data Codec@LayoutKind::encode trait
//@endfn
//@fn c_data Codec@LayoutKind::decode trait
//@endfn
}
/// A variable in the encoding of a layout: its size alone.
pub struct VarSize;
impl Format for VarSize {
    type V = RawVar;
    uninterp spec fn vw(&self) -> RawVar;
    open spec fn ok(v: RawVar) -> bool { v.byte_size <= 65535 }
    open spec fn enc(v: RawVar) -> Seq<u8> { u16::enc(v.byte_size as u16) }
    open spec fn same(a: RawVar, b: RawVar) -> bool { a.byte_size == b.byte_size }
}
//@fn c_data decode_var_byte_size
//@contract
    ensures r matches Ok(n) ==> n <= 65535,
        round() ==> forall|v: RawVar, t: Seq<u8>| v.byte_size <= 65535 && old(reader).rest() == #[trigger] (VarSize::enc(v) + t) ==> r is Ok && r->Ok_0 == v.byte_size && final(reader).rest() == t,
        tight() ==> (r is Ok ==> final(reader).rest().len() + 2 <= old(reader).rest().len()),
//@endfn
/// The id of the first variable does not matter when there is none.
pub struct LayV { pub first: Option<u32>, pub vars: Seq<RawVar> }
proof fn size2(v: Seq<RawVar>, n: int) requires 0 <= n <= v.len() ensures size::<VarSize>(v, n) == 2 * n decreases n { if n > 0 { size2(v, n - 1); } }
#[verifier::opaque]
pub open spec fn lay_enc(v: LayV) -> Seq<u8> { LayoutKind::enc(LayoutKind::Fixed) + (u16::enc(v.vars.len() as u16) + if v.vars.len() > 0 { u32::enc(v.first->Some_0) + flat::<VarSize>(v.vars, 0) } else { Seq::empty() }) }
impl Format for Layout {
    type V = LayV;
    open spec fn vw(&self) -> LayV { match *self { Layout::Fixed(f) => LayV { first: f.first, vars: f.vars@ } } }
    open spec fn ok(v: LayV) -> bool {
        v.vars.len() < 65535 && (forall|i: int| 0 <= i < v.vars.len() ==> (#[trigger] v.vars[i]).byte_size <= 65535) && (v.vars.len() > 0 ==> v.first is Some && contiguous(v.vars, v.first->Some_0 as int) && v.first->Some_0 + v.vars.len() <= u32::MAX + 1)
    }
    open spec fn enc(v: LayV) -> Seq<u8> { lay_enc(v) }
    open spec fn same(a: LayV, b: LayV) -> bool { a.vars == b.vars && (b.vars.len() > 0 ==> a.first == b.first) }
}
impl Codec for Layout {
//@fn c_data Codec@Layout::encode trait
//@begin
    proof { reveal(lay_enc); }
//@inv 0
    invariant Self::ok(self.vw()), *self == Layout::Fixed(*layout), 0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == layout.vars@.len(), forall|i: int| 0 <= i < __it0.v@.len() ==> *(#[trigger] __it0.v@[i]) == layout.vars@[i],
        round() ==> w@ + flat::<VarSize>(layout.vars@, __it0.i@) == old(w)@ + Self::enc(self.vw()),
    ensures round() ==> w@ == old(w)@ + Self::enc(self.vw()),
    decreases __it0.v@.len() - __it0.i@
//@endfn
//@fn c_data Codec@Layout::decode trait
//@local Vec :: with_capacity ==> vec_with_capacity::<u32>
//@local FixedLayout :: from_byte_sizes ==> small_layout
//@begin
    proof { reveal(lay_enc); }
//@inv 0
    invariant __end0 == var_count, __i0 <= __end0, byte_sizes@.len() == __i0, var_count > 0, first_var_id + var_count <= u32::MAX + 1, forall|j: int| 0 <= j < __i0 ==> (#[trigger] byte_sizes@[j]) <= 65535,
        round() ==> forall|v: LayV, t: Seq<u8>| Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) ==> v.vars.len() == var_count && v.first == Some(first_var_id)
            && (forall|j: int| 0 <= j < __i0 ==> (#[trigger] byte_sizes@[j]) == v.vars[j].byte_size) && reader.rest() == flat::<VarSize>(v.vars, __i0 as int) + t,
        tight() ==> reader.rest().len() + 8 + 2 * __i0 <= old(reader).rest().len(),
    decreases __end0 - __i0
//@top 0
    proof {
        assert forall|v: LayV, t: Seq<u8>| round() && Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) implies reader.rest() == VarSize::enc(v.vars[__i0 as int]) + (flat::<VarSize>(v.vars, __i0 + 1) + t) && v.vars[__i0 as int].byte_size <= 65535 by {}
    }
//@end
    proof {
        if __result is Ok {
            let x = __result->Ok_0.vw();
            flat_size::<VarSize>(x.vars, 0); size2(x.vars, x.vars.len() as int);
            assert forall|v: LayV, t: Seq<u8>| round() && Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) implies Self::same(x, v) by {
                if v.vars.len() > 0 { same_vars(x.vars, v.vars, v.first->Some_0 as int, v.vars.len() as int); }
                assert(x.vars =~= v.vars);
            }
        }
    }
//@endfn
}
//@item s_data struct:DataSection
impl DataSection {
//@fn s_data DataSection::with_capacity
//@contract
    requires capacity <= 0x10000
    ensures r.layouts@ == Seq::<Layout>::empty()
//@endfn
//@fn s_data DataSection::add_layout
//@contract
    ensures final(self).layouts@ == old(self).layouts@.push(layout)
//@endfn
//@fn s_data DataSection::layouts
//@local & \[Layout\] ==> &Vec<Layout>
//@contract
    ensures *r == self.layouts
//@endfn
//@fn s_data DataSection::len
//@contract
    ensures r == self.layouts@.len()
//@endfn
}
impl Format for DataSection {
    type V = Seq<LayV>;
    open spec fn vw(&self) -> Seq<LayV> { views(self.layouts@) }
    open spec fn ok(v: Seq<LayV>) -> bool { v.len() <= 65535 && forall|i: int| 0 <= i < v.len() ==> Layout::ok(#[trigger] v[i]) }
    open spec fn enc(v: Seq<LayV>) -> Seq<u8> { u16::enc(v.len() as u16) + flat::<Layout>(v, 0) }
    open spec fn same(a: Seq<LayV>, b: Seq<LayV>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> Layout::same(#[trigger] a[i], b[i]) }
}
impl Codec for DataSection {
//@fn c_data Codec@DataSection::encode trait
//@inv 0
    invariant Self::ok(self.vw()), 0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == self.layouts@.len(), forall|i: int| 0 <= i < __it0.v@.len() ==> *(#[trigger] __it0.v@[i]) == self.layouts@[i],
        round() ==> w@ + flat::<Layout>(self.vw(), __it0.i@) == old(w)@ + Self::enc(self.vw()),
    ensures round() ==> w@ == old(w)@ + Self::enc(self.vw()),
    decreases __it0.v@.len() - __it0.i@
//@top 0
    proof { let j = __it0.i@; if j < self.layouts@.len() { assert(Layout::ok(self.vw()[j])); } }
//@endfn
//@fn c_data Codec@DataSection::decode trait
//@inv 0
    invariant __end0 == layout_count, __i0 <= __end0, section.layouts@.len() == __i0, layout_count <= 65535,
        round() ==> forall|v: Seq<LayV>, t: Seq<u8>| Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) ==> v.len() == layout_count
            && (forall|j: int| 0 <= j < __i0 ==> Layout::same(#[trigger] section.layouts@[j].vw(), v[j])) && reader.rest() == flat::<Layout>(v, __i0 as int) + t,
        tight() ==> reader.rest().len() + 2 + size::<Layout>(views(section.layouts@), __i0 as int) <= old(reader).rest().len(),
    decreases __end0 - __i0
//@top 0
    let ghost x0 = section.layouts@;
    proof {
        assert forall|v: Seq<LayV>, t: Seq<u8>| round() && Self::ok(v) && old(reader).rest() == #[trigger] (Self::enc(v) + t) implies reader.rest() == Layout::enc(v[__i0 as int]) + (flat::<Layout>(v, __i0 + 1) + t) && Layout::ok(v[__i0 as int]) by {}
    }
//@bot 0
    proof { size_ext::<Layout>(views(x0), views(section.layouts@), __i0 as int); }
//@end
    proof { if __result is Ok { flat_size::<Layout>(__result->Ok_0.vw(), 0); } }
//@endfn
}
// ---------------------------------------------------------------- collections of sections, templates
//@item s_sec enum:Section
//@item s_tmpl struct:Template
//@src c_secm crates/host/codec/src/section/mod.rs
/// indexmap::IndexMap by kind: entries in the order of their first insertion, one per kind.
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct IMap<V> { m: Vec<V> }
impl<V> IMap<V> {
    pub uninterp spec fn kinds(&self) -> Seq<SectionKind>;
    pub uninterp spec fn vals(&self) -> Seq<V>;
    #[verifier::external_body]
    pub proof fn distinct(&self) ensures self.kinds().len() == self.vals().len(), forall|i: int, j: int| 0 <= i < self.kinds().len() && 0 <= j < self.kinds().len() && self.kinds()[i] == self.kinds()[j] ==> i == j {}
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: IMap<V>) requires n <= 0x10000 ensures r.kinds() == Seq::<SectionKind>::empty(), r.vals() == Seq::<V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.kinds().len(), r == self.vals().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &SectionKind) -> (r: bool) ensures r == self.kinds().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: SectionKind, v: V) -> (r: Option<V>)
        ensures
            old(self).kinds().contains(k) ==> final(self).kinds() == old(self).kinds() && final(self).vals() == old(self).vals().update(old(self).kinds().index_of(k), v),
            !old(self).kinds().contains(k) ==> final(self).kinds() == old(self).kinds().push(k) && final(self).vals() == old(self).vals().push(v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &SectionKind) -> (r: Option<&mut V>)
        ensures r is Some == old(self).kinds().contains(*k), final(self).kinds() == old(self).kinds(), r is None ==> final(self).vals() == old(self).vals(),
            r matches Some(x) ==> *x == old(self).vals()[old(self).kinds().index_of(*k)] && final(self).vals() == old(self).vals().update(old(self).kinds().index_of(*k), *final(x)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn model_iter_ref<'a>(&'a self) -> (r: VecIter<&'a V>)
        ensures r.i@ == 0, r.v@.len() == self.vals().len(), forall|i: int| 0 <= i < r.v@.len() ==> *(#[trigger] r.v@[i]) == self.vals()[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn drained(self) -> (r: Vec<(SectionKind, V)>)
        ensures r@.len() == self.kinds().len(), r@.len() == self.vals().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == self.kinds()[i] && r@[i].1 == self.vals()[i]
    { unimplemented!() }
}
impl IMap<Vec<u8>> {
    /// entry(k).or_insert_with(Vec::new)
    #[verifier::external_body]
    pub fn or_empty(&mut self, k: SectionKind)
        ensures
            old(self).kinds().contains(k) ==> final(self).kinds() == old(self).kinds() && final(self).vals() == old(self).vals(),
            !old(self).kinds().contains(k) ==> final(self).kinds() == old(self).kinds().push(k) && final(self).vals().len() == old(self).vals().len() + 1
                && (forall|i: int| 0 <= i < old(self).vals().len() ==> #[trigger] final(self).vals()[i] == old(self).vals()[i]) && final(self).vals()[old(self).vals().len() as int]@ == Seq::<u8>::empty(),
    { unimplemented!() }
    /// The bytes of all buffers; they lie in memory.
    #[verifier::external_body]
    pub fn total_len(&self) -> (r: usize) ensures r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
}
#[verifier::external_body]
pub struct KindSet { s: Vec<SectionKind> }
impl KindSet {
    pub uninterp spec fn has(&self, k: SectionKind) -> bool;
    #[verifier::external_body]
    pub fn contains(&self, k: &SectionKind) -> (r: bool) ensures r == self.has(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn or_empty(o: Option<KindSet>) -> (r: KindSet) ensures o is Some ==> r == o->Some_0, o is None ==> forall|k: SectionKind| !#[trigger] r.has(k) { unimplemented!() }
}
pub open spec fn want(o: Option<KindSet>, k: SectionKind) -> bool { o is None || o->Some_0.has(k) }

pub enum SecV { Header(HeadV), Code(CodeV), Data(Seq<LayV>), Ctors(Seq<Seq<u8>>), Schema, Api, Deploy(DeplV) }
pub open spec fn kind_of(v: SecV) -> SectionKind {
    match v { SecV::Header(_) => SectionKind::Header, SecV::Code(_) => SectionKind::Code, SecV::Data(_) => SectionKind::Data, SecV::Ctors(_) => SectionKind::Ctors, SecV::Schema => SectionKind::Schema, SecV::Api => SectionKind::Api, SecV::Deploy(_) => SectionKind::Deploy }
}
/// A section: its kind, how long it is, and its own encoding.
#[verifier::opaque]
pub open spec fn sec_enc(v: SecV) -> Seq<u8> {
    match v { SecV::Header(x) => HeaderSection::enc(x), SecV::Code(x) => CodeSection::enc(x), SecV::Data(x) => DataSection::enc(x), SecV::Ctors(x) => CtorsSection::enc(x), SecV::Schema => SchemaSection::enc(()), SecV::Api => ApiSection::enc(()), SecV::Deploy(x) => DeploySection::enc(x) }
}
#[verifier::opaque]
pub open spec fn sec_ok(v: SecV) -> bool {
    match v { SecV::Header(x) => HeaderSection::ok(x), SecV::Code(x) => CodeSection::ok(x), SecV::Data(x) => DataSection::ok(x), SecV::Ctors(x) => CtorsSection::ok(x), SecV::Schema => false, SecV::Api => false, SecV::Deploy(x) => DeploySection::ok(x) }
}
#[verifier::opaque]
pub open spec fn sec_same(a: SecV, b: SecV) -> bool {
    match (a, b) { (SecV::Header(x), SecV::Header(y)) => x == y, (SecV::Code(x), SecV::Code(y)) => x == y, (SecV::Data(x), SecV::Data(y)) => DataSection::same(x, y), (SecV::Ctors(x), SecV::Ctors(y)) => x == y, (SecV::Schema, SecV::Schema) => true, (SecV::Api, SecV::Api) => true,
        (SecV::Deploy(x), SecV::Deploy(y)) => x == y, _ => false }
}
#[verifier::opaque]
pub open spec fn framed(kind: SectionKind, b: Seq<u8>) -> Seq<u8> { SectionPreview::enc(PrevV { kind, byte_size: b.len() as u32 }) + b }
impl Format for Section {
    type V = SecV;
    open spec fn vw(&self) -> SecV {
        match *self { Section::Header(x) => SecV::Header(x.vw()), Section::Code(x) => SecV::Code(x.vw()), Section::Data(x) => SecV::Data(x.vw()), Section::Ctors(x) => SecV::Ctors(x.vw()), Section::Schema(x) => SecV::Schema, Section::Api(x) => SecV::Api, Section::Deploy(x) => SecV::Deploy(x.vw()) }
    }
    open spec fn ok(v: SecV) -> bool { sec_ok(v) && sec_enc(v).len() < u32::MAX }
    open spec fn enc(v: SecV) -> Seq<u8> { framed(kind_of(v), sec_enc(v)) }
    open spec fn same(a: SecV, b: SecV) -> bool { sec_same(a, b) }
}
impl Section {
//@fn s_sec Section::kind
//@contract
    ensures r == kind_of(self.vw())
//@endfn
//@fn s_sec Section::as_header
//@contract
    requires self is Header
    ensures *self == Section::Header(*r)
//@endfn
//@fn s_sec Section::as_code
//@contract
    requires self is Code
    ensures *self == Section::Code(*r)
//@endfn
//@fn s_sec Section::as_data
//@contract
    requires self is Data
    ensures *self == Section::Data(*r)
//@endfn
//@fn s_sec Section::as_ctors
//@contract
    requires self is Ctors
    ensures *self == Section::Ctors(*r)
//@endfn
//@fn s_sec Section::as_schema
//@contract
    requires self is Schema
    ensures *self == Section::Schema(*r)
//@endfn
//@fn s_sec Section::as_api
//@contract
    requires self is Api
    ensures *self == Section::Api(*r)
//@endfn
//@fn s_sec Section::as_deploy
//@contract
    requires self is Deploy
    ensures *self == Section::Deploy(*r)
//@endfn
}
/// The From implementations of Section: each wraps its argument.
pub trait IntoSection: Sized { spec fn wrapped(&self) -> Section; fn into_section(self) -> (r: Section) ensures r == self.wrapped(); }
impl IntoSection for HeaderSection { open spec fn wrapped(&self) -> Section { Section::Header(*self) } fn into_section(self) -> (r: Section) { Section::Header(self) } }
impl IntoSection for CodeSection { open spec fn wrapped(&self) -> Section { Section::Code(*self) } fn into_section(self) -> (r: Section) { Section::Code(self) } }
impl IntoSection for DataSection { open spec fn wrapped(&self) -> Section { Section::Data(*self) } fn into_section(self) -> (r: Section) { Section::Data(self) } }
impl IntoSection for CtorsSection { open spec fn wrapped(&self) -> Section { Section::Ctors(*self) } fn into_section(self) -> (r: Section) { Section::Ctors(self) } }
impl IntoSection for SchemaSection { open spec fn wrapped(&self) -> Section { Section::Schema(*self) } fn into_section(self) -> (r: Section) { Section::Schema(self) } }
impl IntoSection for ApiSection { open spec fn wrapped(&self) -> Section { Section::Api(*self) } fn into_section(self) -> (r: Section) { Section::Api(self) } }
impl IntoSection for DeploySection { open spec fn wrapped(&self) -> Section { Section::Deploy(*self) } fn into_section(self) -> (r: Section) { Section::Deploy(self) } }
//@sub IndexMap < SectionKind , (Vec < u8 >|Section) > ==> IMap<\1>
//@sub IndexMap :: ==> IMap::
//@sub HashSet < SectionKind > ==> KindSet
//@sub SectionsDecoder < 'a , T > ==> SectionsDecoder<'a, 'b>
//@sub & 'a mut T\b ==> &'a mut Cursor<'b>
//@item s_sec struct:Sections
impl Sections {
    pub open spec fn wf(&self) -> bool { self.inner.kinds().len() == self.inner.vals().len() && forall|i: int| 0 <= i < self.inner.vals().len() ==> (#[trigger] self.inner.kinds()[i]) == kind_of(self.inner.vals()[i].vw()) }
//@fn s_sec Sections::with_capacity
//@contract
    requires capacity <= 0x10000
    ensures r.inner.kinds() == Seq::<SectionKind>::empty(), r.inner.vals() == Seq::<Section>::empty()
//@endfn
//@fn s_sec Sections::len
//@contract
    ensures r == self.inner.vals().len()
//@endfn
//@fn s_sec Sections::insert
//@contract
    requires old(self).wf()
    ensures final(self).wf(), ({ let k = kind_of(section.vw()); let o = old(self).inner; let n = final(self).inner;
        if o.kinds().contains(k) { n.kinds() == o.kinds() && n.vals() == o.vals().update(o.kinds().index_of(k), section) } else { n.kinds() == o.kinds().push(k) && n.vals() == o.vals().push(section) } })
//@begin
    proof { self.inner.distinct(); }
//@end
    proof { let k = kind_of(section.vw()); let o = old(self).inner; if o.kinds().contains(k) { assert(o.kinds()[o.kinds().index_of(k)] == k); } }
//@endfn
//@fn s_sec Sections::contains
//@contract
    ensures r == self.inner.kinds().contains(kind)
//@endfn
    /// Sections::iter
    pub fn model_iter_ref<'a>(&'a self) -> (r: VecIter<&'a Section>)
        ensures r.i@ == 0, r.v@.len() == self.inner.vals().len(), forall|i: int| 0 <= i < r.v@.len() ==> *(#[trigger] r.v@[i]) == self.inner.vals()[i]
    { self.inner.model_iter_ref() }
}
#[verifier::opaque]
pub open spec fn sections_enc(v: Seq<SecV>) -> Seq<u8> { u16::enc(v.len() as u16) + flat::<Section>(v, 0) }
impl Format for Sections {
    type V = Seq<SecV>;
    open spec fn vw(&self) -> Seq<SecV> { views(self.inner.vals()) }
    open spec fn ok(v: Seq<SecV>) -> bool { v.len() < 65535 && (forall|i: int| 0 <= i < v.len() ==> Section::ok(#[trigger] v[i])) && (forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && kind_of(v[i]) == kind_of(v[j]) ==> i == j) }
    open spec fn enc(v: Seq<SecV>) -> Seq<u8> { sections_enc(v) }
    open spec fn same(a: Seq<SecV>, b: Seq<SecV>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> sec_same(#[trigger] a[i], b[i]) }
}
/// The buffers of the encoder
pub struct Buf;
pub struct BufV { pub kind: SectionKind, pub b: Seq<u8> }
impl Format for Buf {
    type V = BufV;
    uninterp spec fn vw(&self) -> BufV;
    open spec fn ok(v: BufV) -> bool { v.b.len() < u32::MAX }
    open spec fn enc(v: BufV) -> Seq<u8> { framed(v.kind, v.b) }
    open spec fn same(a: BufV, b: BufV) -> bool { a == b }
}
pub open spec fn bufs(m: IMap<Vec<u8>>) -> Seq<BufV> { Seq::new(m.vals().len(), |i: int| BufV { kind: m.kinds()[i], b: m.vals()[i]@ }) }
proof fn same_flat(m: IMap<Vec<u8>>, v: Seq<SecV>, i: int)
    requires m.kinds().len() == v.len(), m.vals().len() == v.len(), 0 <= i <= v.len(), forall|j: int| 0 <= j < v.len() ==> m.kinds()[j] == kind_of(#[trigger] v[j]) && m.vals()[j]@ == sec_enc(v[j])
    ensures flat::<Buf>(bufs(m), i) == flat::<Section>(v, i)
    decreases v.len() - i
{ if i < v.len() { same_flat(m, v, i + 1); let x = v[i]; assert(bufs(m)[i] == BufV { kind: kind_of(x), b: sec_enc(x) }); } }
/// The encoder's assertions are about the values it was given: asked for with the round trip.
pub fn rt_assert_round(b: bool) requires round() ==> b {}
#[verifier::external_body]
pub fn vec_any_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { Vec::new() }
//@fn c_prev Codec@SectionPreview::fixed_size as=preview_size
//@contract
    ensures r == Some(8usize)
//@endfn
//@item c_enc struct:SectionsEncoder
impl SectionsEncoder {
//@fn c_enc SectionsEncoder::with_capacity
//@contract
    requires capacity <= 0x10000
    ensures r.section_buf.kinds() == Seq::<SectionKind>::empty(), r.section_buf.vals() == Seq::<Vec<u8>>::empty()
//@endfn
//@fn c_enc SectionsEncoder::encode
//@contract
    requires Sections::ok(sections.vw()), old(self).section_buf.kinds().len() == 0, old(self).section_buf.vals().len() == 0
    ensures ({ let m = final(self).section_buf; let v = sections.vw(); m.kinds().len() == v.len() && m.vals().len() == v.len() && forall|j: int| 0 <= j < v.len() ==> m.kinds()[j] == kind_of(#[trigger] v[j]) && (round() ==> m.vals()[j]@ == sec_enc(v[j])) }),
        round() ==> ({ let m = final(self).section_buf; (forall|j: int| 0 <= j < m.vals().len() ==> (#[trigger] m.vals()[j])@.len() < u32::MAX) && u16::enc(m.vals().len() as u16) + flat::<Buf>(bufs(m), 0) == Sections::enc(sections.vw()) })
//@end
    proof { if round() { reveal(sections_enc); same_flat(self.section_buf, sections.vw(), 0); assert forall|j: int| 0 <= j < self.section_buf.vals().len() implies (#[trigger] self.section_buf.vals()[j])@.len() < u32::MAX by { assert(Section::ok(sections.vw()[j])); } } }
//@inv 0
    invariant Sections::ok(sections.vw()), 0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == sections.inner.vals().len(), forall|i: int| 0 <= i < __it0.v@.len() ==> *(#[trigger] __it0.v@[i]) == sections.inner.vals()[i],
        ({ let m = self.section_buf; let v = sections.vw(); m.kinds().len() == __it0.i@ && m.vals().len() == __it0.i@ && forall|j: int| 0 <= j < __it0.i@ ==> m.kinds()[j] == kind_of(#[trigger] v[j]) && (round() ==> m.vals()[j]@ == sec_enc(v[j])) }),
    ensures __it0.i@ == sections.inner.vals().len(),
    decreases __it0.v@.len() - __it0.i@
//@top 0
    proof {
        let j = __it0.i@; let v = sections.vw();
        if j < v.len() { assert(Section::ok(v[j])); assert(v[j] == sections.inner.vals()[j].vw()); if self.section_buf.kinds().contains(kind_of(v[j])) { let i = choose|i: int| 0 <= i < j && self.section_buf.kinds()[i] == kind_of(v[j]); assert(kind_of(v[i]) == kind_of(v[j])); } }
    }
//@endfn
//@fn c_enc SectionsEncoder::finish
//@local mut self ==> self
//@local \(match (self|this)\.section_buf\.values.*?\.sum \(\) ==> \1.section_buf.total_len()
//@local \.drain \(\.\.\) ==> .drained()
//@local SectionPreview :: fixed_size ==> preview_size
//@local Vec :: with_capacity ==> vec_any_capacity
//@local rt_assert ==> rt_assert_round
//@contract
    requires self.section_buf.vals().len() < 65535, round() ==> forall|i: int| 0 <= i < self.section_buf.vals().len() ==> (#[trigger] self.section_buf.vals()[i])@.len() < u32::MAX
    ensures round() ==> r@ == u16::enc(self.section_buf.vals().len() as u16) + flat::<Buf>(bufs(self.section_buf), 0)
//@begin
    proof { self.section_buf.distinct(); reveal(framed); }
    let ghost m = self.section_buf;
//@inv 0
    invariant 0 <= __it0.i@ <= __it0.v@.len(), __it0.v@.len() == m.vals().len(), m.kinds().len() == m.vals().len(), forall|i: int| 0 <= i < __it0.v@.len() ==> (#[trigger] __it0.v@[i]).0 == m.kinds()[i] && __it0.v@[i].1 == m.vals()[i],
        round() ==> forall|i: int| 0 <= i < m.vals().len() ==> (#[trigger] m.vals()[i])@.len() < u32::MAX,
        round() ==> w@ + flat::<Buf>(bufs(m), __it0.i@) == u16::enc(m.vals().len() as u16) + flat::<Buf>(bufs(m), 0),
    ensures round() ==> w@ == u16::enc(m.vals().len() as u16) + flat::<Buf>(bufs(m), 0),
    decreases __it0.v@.len() - __it0.i@
//@top 0
    proof { reveal(framed); let j = __it0.i@; if j < m.vals().len() { assert(m.vals()[j] == m.vals()[j]); assert(bufs(m)[j] == BufV { kind: m.kinds()[j], b: m.vals()[j]@ }); } }
//@endfn
//@fn c_enc SectionsEncoder::encode_section
//@contract
    requires sec_ok(section.vw()), !old(self).section_buf.kinds().contains(kind_of(section.vw()))
    ensures ({ let o = old(self).section_buf; let m = final(self).section_buf; m.kinds() == o.kinds().push(kind_of(section.vw())) && m.vals().len() == o.vals().len() + 1 && (forall|i: int| 0 <= i < o.vals().len() ==> (#[trigger] m.vals()[i]) == o.vals()[i])
        && (round() ==> m.vals()[o.vals().len() as int]@ == sec_enc(section.vw())) })
//@begin
    proof { reveal(sec_enc); reveal(sec_ok); reveal(sec_same); }
//@endfn
//@fn c_enc SectionsEncoder::section_buf_mut
//@local \{ rt_panic \(\) \} ==> { rt_panic::<&mut Vec<u8>>() }
//@local self\.section_buf\.entry \(kind\)\.or_insert_with \((\| \| Vec :: new \(\)|Vec :: new)\) ==> self.section_buf.or_empty(kind)
//@local self\.section_buf\.entry \(kind\)\.or_default \(\) ==> self.section_buf.or_empty(kind)
//@contract
    requires !old(self).section_buf.kinds().contains(kind)
    ensures r@ == Seq::<u8>::empty(), ({ let o = old(self).section_buf; let m = final(self).section_buf; m.kinds() == o.kinds().push(kind) && m.vals().len() == o.vals().len() + 1 && (forall|i: int| 0 <= i < o.vals().len() ==> (#[trigger] m.vals()[i]) == o.vals()[i])
        && m.vals()[o.vals().len() as int] == *final(r) })
//@begin
    let ghost o = self.section_buf;
    proof {
        o.distinct();
        let k2 = o.kinds().push(kind);
        assert(k2[o.kinds().len() as int] == kind);
        let i = k2.index_of(kind);
        assert(k2[i] == kind);
        if i < o.kinds().len() { assert(o.kinds()[i] == kind); }
    }
//@endfn
}
//@item c_dec struct:SectionsDecoder
impl<'a, 'b> SectionsDecoder<'a, 'b> {
//@fn c_dec SectionsDecoder::new
//@contract
    ensures r matches Ok(d) ==> d.last_preview is None && d.read_previews == 0 && d.section_count <= 65535 && *final(d.reader) == *final(reader) && (tight() ==> d.reader.rest().len() + 2 <= old(reader).rest().len()),
        round() ==> forall|v: u16, t: Seq<u8>| old(reader).rest() == #[trigger] (u16::enc(v) + t) ==> r is Ok && r->Ok_0.section_count == v && r->Ok_0.reader.rest() == t,
//@endfn
//@fn c_dec SectionsDecoder::section_count
//@contract
    ensures r == self.section_count
//@endfn
//@fn c_dec SectionsDecoder::is_eof
//@contract
    ensures r == (old(self).read_previews >= old(self).section_count), *final(self) == *old(self)
//@endfn
//@fn c_dec SectionsDecoder::next_preview
//@contract
    requires old(self).last_preview is None
    ensures *final(final(self).reader) == *final(old(self).reader), final(self).section_count == old(self).section_count,
        old(self).read_previews >= old(self).section_count ==> r is Err,
        old(self).read_previews < old(self).section_count ==> good(old(self).reader.rest(), r, final(self).reader.rest()),
        r matches Ok(p) ==> final(self).last_preview == Some(p) && final(self).read_previews == old(self).read_previews + 1,
//@endfn
//@fn c_dec SectionsDecoder::decode_section
//@local \.into \(\) ==> .into_section()
//@contract
    requires old(self).last_preview is Some
    ensures *final(final(self).reader) == *final(old(self).reader), final(self).section_count == old(self).section_count, final(self).read_previews == old(self).read_previews, final(self).last_preview is None,
        r matches Ok(x) ==> kind_of(x.vw()) == old(self).last_preview->Some_0.kind,
        round() ==> forall|v: SecV, t: Seq<u8>| sec_ok(v) && kind_of(v) == old(self).last_preview->Some_0.kind && old(self).reader.rest() == #[trigger] (sec_enc(v) + t) ==> r is Ok && sec_same(r->Ok_0.vw(), v) && final(self).reader.rest() == t,
        tight() ==> (r matches Ok(x) ==> final(self).reader.rest().len() + sec_enc(x.vw()).len() <= old(self).reader.rest().len()),
//@begin
    proof { reveal(sec_enc); reveal(sec_ok); reveal(sec_same); }
//@endfn
//@fn c_dec SectionsDecoder::skip_section
//@contract
    requires old(self).last_preview is Some
    ensures *final(final(self).reader) == *final(old(self).reader), final(self).section_count == old(self).section_count, final(self).read_previews == old(self).read_previews, final(self).last_preview is None,
        ({ let n = old(self).last_preview->Some_0.byte_size; let r0 = old(self).reader.rest(); (r is Err ==> r0.len() < n) && (r is Ok ==> n <= r0.len() && final(self).reader.rest() == r0.skip(n as int)) })
//@endfn
//@fn c_dec SectionsDecoder::read_section_count
//@contract
    ensures *final(final(self).reader) == *final(old(self).reader), final(self).last_preview == old(self).last_preview, final(self).read_previews == old(self).read_previews,
        r matches Ok(n) ==> n <= 65535 && (tight() ==> final(self).reader.rest().len() + 2 <= old(self).reader.rest().len()),
        round() ==> forall|v: u16, t: Seq<u8>| old(self).reader.rest() == #[trigger] (u16::enc(v) + t) ==> r is Ok && r->Ok_0 == v && final(self).reader.rest() == t,
//@endfn
//@fn c_dec SectionsDecoder::section_bytes
//@contract
    requires old(self).last_preview is Some
    ensures *final(final(self).reader) == *final(old(self).reader), final(self).section_count == old(self).section_count, final(self).read_previews == old(self).read_previews, final(self).last_preview is None,
        ({ let n = old(self).last_preview->Some_0.byte_size; let r0 = old(self).reader.rest(); (r is Err ==> r0.len() < n) && (r is Ok ==> n <= r0.len() && final(self).reader.rest() == r0.skip(n as int)) })
//@endfn
}
/// Of the first n, those asked for.
pub open spec fn pick(o: Option<KindSet>, v: Seq<SecV>, n: int) -> Seq<SecV> decreases n { if n <= 0 { Seq::empty() } else if want(o, kind_of(v[n - 1])) { pick(o, v, n - 1).push(v[n - 1]) } else { pick(o, v, n - 1) } }
proof fn pick_from(o: Option<KindSet>, v: Seq<SecV>, n: int, j: int) -> (m: int)
    requires 0 <= n <= v.len(), 0 <= j < pick(o, v, n).len()
    ensures 0 <= m < n, pick(o, v, n)[j] == v[m]
    decreases n
{ if want(o, kind_of(v[n - 1])) && j == pick(o, v, n - 1).len() { n - 1 } else { pick_from(o, v, n - 1, j) } }
proof fn pick_all(v: Seq<SecV>, n: int) requires 0 <= n <= v.len() ensures pick(None, v, n) == v.take(n) decreases n
{ if n > 0 { pick_all(v, n - 1); assert(v.take(n - 1).push(v[n - 1]) =~= v.take(n)); } else { assert(v.take(0) =~= Seq::empty()); } }
proof fn pick_has(o: Option<KindSet>, v: Seq<SecV>, n: int, i: int) -> (j: int)
    requires 0 <= i < n <= v.len(), want(o, kind_of(v[i]))
    ensures 0 <= j < pick(o, v, n).len(), pick(o, v, n)[j] == v[i]
    decreases n
{ if i == n - 1 { pick(o, v, n - 1).len() as int } else { pick_has(o, v, n - 1, i) } }
proof fn size_update(a: Seq<SecV>, i: int, x: SecV, n: int)
    requires 0 <= n <= a.len()
    ensures size::<Section>(a.update(i, x), n) <= size::<Section>(a, n) + Section::enc(x).len(), (i >= n || i < 0) ==> size::<Section>(a.update(i, x), n) == size::<Section>(a, n)
    decreases n
{ if n > 0 { size_update(a, i, x, n - 1); } }
proof fn same_kind(a: SecV, b: SecV) requires sec_same(a, b) ensures kind_of(a) == kind_of(b) { reveal(sec_same); }
proof fn framed_len(k: SectionKind, b: Seq<u8>) ensures framed(k, b).len() == 6 + b.len() { reveal(framed); }
pub open spec fn at(o: Option<KindSet>, v: Seq<SecV>, t: Seq<u8>, i: int, m: IMap<Section>, rest: Seq<u8>) -> bool { Sections::same(views(m.vals()), pick(o, v, i)) && rest == flat::<Section>(v, i) + t }
/// What lies ahead of the decoder after i sections
proof fn ahead(o: Option<KindSet>, v: Seq<SecV>, t: Seq<u8>, i: int, m: IMap<Section>, rest: Seq<u8>)
    requires Sections::ok(v), 0 <= i < v.len(), at(o, v, t, i, m, rest), forall|i: int| 0 <= i < m.vals().len() ==> (#[trigger] m.kinds()[i]) == kind_of(m.vals()[i].vw()), m.kinds().len() == m.vals().len()
    ensures rest == SectionPreview::enc(PrevV { kind: kind_of(v[i]), byte_size: sec_enc(v[i]).len() as u32 }) + (sec_enc(v[i]) + (flat::<Section>(v, i + 1) + t)), Section::ok(v[i]), !m.kinds().contains(kind_of(v[i]))
{
    reveal(framed);
    let x = v[i];
    assert(Section::ok(x));
    assert(flat::<Section>(v, i) == Section::enc(x) + flat::<Section>(v, i + 1));
    if m.kinds().contains(kind_of(x)) {
        let j = m.kinds().index_of(kind_of(x)); let p = pick(o, v, i);
        assert(m.kinds()[j] == kind_of(x));
        assert(sec_same(views(m.vals())[j], p[j])); same_kind(views(m.vals())[j], p[j]);
        let n = pick_from(o, v, i, j);
        assert(kind_of(v[n]) == kind_of(x));
    }
}
proof fn taken(o: Option<KindSet>, v: Seq<SecV>, t: Seq<u8>, i: int, m: IMap<Section>, rest: Seq<u8>, m2: IMap<Section>, rest2: Seq<u8>, x: Section)
    requires 0 <= i < v.len(), at(o, v, t, i, m, rest), want(o, kind_of(v[i])), m2.vals() == m.vals().push(x), sec_same(x.vw(), v[i]), rest2 == flat::<Section>(v, i + 1) + t
    ensures at(o, v, t, i + 1, m2, rest2)
{ assert forall|j: int| 0 <= j < m2.vals().len() implies sec_same(#[trigger] views(m2.vals())[j], pick(o, v, i + 1)[j]) by { if j < m.vals().len() { assert(sec_same(views(m.vals())[j], pick(o, v, i)[j])); } } }
proof fn added_size(m: IMap<Section>, m2: IMap<Section>, x: Section, p: int)
    requires m2.vals() == m.vals().push(x) || m2.vals() == m.vals().update(p, x)
    ensures size::<Section>(views(m2.vals()), m2.vals().len() as int) <= size::<Section>(views(m.vals()), m.vals().len() as int) + 6 + sec_enc(x.vw()).len()
{
    framed_len(kind_of(x.vw()), sec_enc(x.vw()));
    let n = m.vals().len() as int;
    if m2.vals() == m.vals().push(x) { size_ext::<Section>(views(m.vals()), views(m2.vals()), n); assert(views(m2.vals())[n] == x.vw()); }
    else if 0 <= p < n { size_update(views(m.vals()), p, x.vw(), n); assert(views(m2.vals()) =~= views(m.vals()).update(p, x.vw())); }
    else { assert(views(m2.vals()) =~= views(m.vals())); }
}
/// The sections a template must have
pub open spec fn core(v: Seq<SecV>) -> bool { has_kind(v, SectionKind::Code) && has_kind(v, SectionKind::Data) && has_kind(v, SectionKind::Ctors) }
pub open spec fn has_kind(v: Seq<SecV>, k: SectionKind) -> bool { exists|i: int| 0 <= i < v.len() && kind_of(#[trigger] v[i]) == k }
proof fn kinds_in(x: Sections, k: SectionKind) requires x.wf() ensures x.inner.kinds().contains(k) == has_kind(x.vw(), k)
{
    let ks = x.inner.kinds();
    if ks.contains(k) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(kind_of(x.vw()[i]) == k); }
    if has_kind(x.vw(), k) { let i = choose|i: int| 0 <= i < x.vw().len() && kind_of(#[trigger] x.vw()[i]) == k; assert(ks[i] == k); }
}
proof fn kinds_same(a: Seq<SecV>, b: Seq<SecV>, k: SectionKind) requires Sections::same(a, b) ensures has_kind(a, k) == has_kind(b, k)
{
    if has_kind(a, k) { let i = choose|i: int| 0 <= i < a.len() && kind_of(#[trigger] a[i]) == k; assert(sec_same(a[i], b[i])); same_kind(a[i], b[i]); assert(kind_of(b[i]) == k); }
    if has_kind(b, k) { let i = choose|i: int| 0 <= i < b.len() && kind_of(#[trigger] b[i]) == k; assert(sec_same(a[i], b[i])); same_kind(a[i], b[i]); assert(kind_of(a[i]) == k); }
}
//@fn c_dec decode_sections
//@local interests\.unwrap_or_else \((\| \| HashSet :: (default|new) \(\)|HashSet :: (default|new))\) ==> KindSet::or_empty(interests)
//@local interests\.unwrap_or_default \(\) ==> KindSet::or_empty(interests)
//@contract
    ensures r matches Ok(x) ==> x.wf() && forall|k: SectionKind| (#[trigger] x.inner.kinds().contains(k)) == has_kind(x.vw(), k),
        r matches Ok(x) ==> forall|v: Seq<SecV>, k: SectionKind| Sections::same(x.vw(), v) ==> (#[trigger] has_kind(v, k)) == x.inner.kinds().contains(k),
        round() ==> forall|v: Seq<SecV>, t: Seq<u8>| Sections::ok(v) && old(reader).rest() == #[trigger] (Sections::enc(v) + t) ==> r is Ok && Sections::same(r->Ok_0.vw(), pick(interests, v, v.len() as int)) && final(reader).rest() == t && (interests is None ==> pick(interests, v, v.len() as int) == v),
        tight() ==> (r matches Ok(x) ==> final(reader).rest().len() + Sections::enc(x.vw()).len() <= old(reader).rest().len()),
//@begin
    let ghost r0 = reader.rest();
    let ghost want0 = interests;
    proof { reveal(sections_enc); }
//@before 0
    let ghost fr = *final(decoder.reader);
//@inv 0
    invariant __end0 == section_count, __i0 <= __end0, section_count <= 65535, decoder.section_count == section_count, decoder.read_previews == __i0, decoder.last_preview is None,
        *final(decoder.reader) == fr, r0 == old(reader).rest(), sections.wf(), decode_each == (want0 is None), want0 is Some ==> interests == want0->Some_0, want0 is None ==> forall|k: SectionKind| !#[trigger] interests.has(k),
        round() ==> forall|v: Seq<SecV>, t: Seq<u8>| Sections::ok(v) && r0 == #[trigger] (Sections::enc(v) + t) ==> v.len() == section_count
            && at(want0, v, t, __i0 as int, sections.inner, decoder.reader.rest()),
        tight() ==> decoder.reader.rest().len() + 2 + size::<Section>(views(sections.inner.vals()), sections.inner.vals().len() as int) <= r0.len(),
    decreases __end0 - __i0
//@top 0
    let ghost s0 = sections.inner; let ghost d0 = decoder.reader.rest();
    proof {
        s0.distinct();
        assert forall|v: Seq<SecV>, t: Seq<u8>| round() && Sections::ok(v) && r0 == #[trigger] (Sections::enc(v) + t) implies
            d0 == SectionPreview::enc(PrevV { kind: kind_of(v[__i0 as int]), byte_size: sec_enc(v[__i0 as int]).len() as u32 }) + (sec_enc(v[__i0 as int]) + (flat::<Section>(v, __i0 + 1) + t)) && Section::ok(v[__i0 as int])
            && !s0.kinds().contains(kind_of(v[__i0 as int])) by { ahead(want0, v, t, __i0 as int, s0, d0); }
    }
//@bot 0
    proof {
        broadcast use seqs::parts_all;
        let s1 = sections.inner; let d1 = decoder.reader.rest();
        assert(want(want0, kind) == (decode_each || interests.has(kind)));
        if want(want0, kind) {
            let p = s0.kinds().index_of(kind);
            if s0.kinds().contains(kind) { assert(0 <= p < s0.kinds().len() && s0.kinds()[p] == kind); }
            let x = if s0.kinds().contains(kind) { s1.vals()[p] } else { s1.vals().last() };
            added_size(s0, s1, x, p);
            assert(tight() ==> d1.len() + 2 + size::<Section>(views(s1.vals()), s1.vals().len() as int) <= r0.len());
            assert forall|v: Seq<SecV>, t: Seq<u8>| round() && Sections::ok(v) && r0 == #[trigger] (Sections::enc(v) + t) implies at(want0, v, t, __i0 + 1, s1, d1) by { taken(want0, v, t, __i0 as int, s0, d0, s1, d1, x); }
        } else {
            assert(tight() ==> d1.len() + 2 + size::<Section>(views(s1.vals()), s1.vals().len() as int) <= r0.len());
            assert forall|v: Seq<SecV>, t: Seq<u8>| round() && Sections::ok(v) && r0 == #[trigger] (Sections::enc(v) + t) implies at(want0, v, t, __i0 + 1, s1, d1) by { 
                assert(kind == kind_of(v[__i0 as int]));
                assert(d1 == (sec_enc(v[__i0 as int]) + (flat::<Section>(v, __i0 + 1) + t)).skip(sec_enc(v[__i0 as int]).len() as int));
                assert(d1 == flat::<Section>(v, __i0 + 1) + t);
                assert(pick(want0, v, __i0 + 1) == pick(want0, v, __i0 as int));
            }
        }
    }
//@end
    proof {
        if __result is Ok {
            flat_size::<Section>(__result->Ok_0.vw(), 0);
            let x = __result->Ok_0;
            assert forall|k: SectionKind| (#[trigger] x.inner.kinds().contains(k)) == has_kind(x.vw(), k) by { kinds_in(x, k); }
            assert forall|v: Seq<SecV>, k: SectionKind| Sections::same(x.vw(), v) implies (#[trigger] has_kind(v, k)) == x.inner.kinds().contains(k) by { kinds_in(x, k); kinds_same(x.vw(), v, k); }
            assert forall|v: Seq<SecV>| want0 is None implies #[trigger] pick(want0, v, v.len() as int) == v by { pick_all(v, v.len() as int); assert(v.take(v.len() as int) =~= v); }
        }
    }
//@endfn
impl Template {
//@fn s_tmpl Template::from_sections
//@contract
    ensures r.sections == sections
//@endfn
//@fn s_tmpl Template::sections
//@contract
    ensures *r == self.sections
//@endfn
}
//@fn c_tmpl encode as=template_encode
//@contract
    requires Sections::ok(template.sections.vw())
    ensures round() ==> r@ == Sections::enc(template.sections.vw())
//@endfn
//@fn c_tmpl decode as=template_decode
//@contract
    ensures
        round() ==> forall|v: Seq<SecV>, t: Seq<u8>| Sections::ok(v) && old(reader).rest() == #[trigger] (Sections::enc(v) + t) && core(pick(interests, v, v.len() as int))
            ==> r is Ok && Sections::same(r->Ok_0.sections.vw(), pick(interests, v, v.len() as int)) && final(reader).rest() == t,
        tight() ==> (r matches Ok(x) ==> final(reader).rest().len() + Sections::enc(x.sections.vw()).len() <= old(reader).rest().len()),
        r matches Ok(x) ==> x.sections.wf() && core(x.sections.vw()),
//@endfn
impl Codec for Sections {
//@fn c_secm Codec@Sections::encode trait
//@local crate :: template :: encode ==> template_encode
//@endfn
//@fn c_secm Codec@Sections::decode trait
//@local decode :: decode_sections ==> decode_sections
//@endfn
}
} fn main() {}
