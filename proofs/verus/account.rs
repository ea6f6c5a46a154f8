use vstd::prelude::*;
//@src acc crates/host/state/src/account_storage.rs
//@src gs crates/host/state/src/global_state.rs
//@sub \bString\b ==> Key
//@sub & str\b ==> &Key
//@sub (self(?:\.gs)?)\.storage \(\) ==> \1.st
//@sub \.try_into \(\)\.expect \("[^"]*"\) ==> .to_arr32()
//@sub & bytes \[ segment\.range\.clone \(\) \] ==> bytes.sub(segment.range.clone())
//@sub & bytes \[ \.\. \] ==> arr_slice(&bytes)
//@sub & new_value\.to_le_bytes \(\) \[ \.\. \] ==> &new_value.le_bytes()
//@sub mut var : & mut \[ u8 \] ==> var: &mut Cur
//@sub var = & mut var \[ \.\. ([^\[\]]*) \] ==> var.keep(\1)
//@sub var = & mut var \[ ([^\[\]]*) \.\. \] ==> var.skip(\1)
//@sub self\.get_var \(var_id, & mut bytes\) ==> self.get_var_buf(var_id, &mut bytes)
//@sub i64 :: from \( ==> i64_from(
//@sub State \(Blake3Hasher :: hash \(key\.as_bytes \(\)\)\) ==> 0u8
//@sub gs\.clone \(\), ==> &gs,
//@sub (i64|i32) :: from_le_bytes \(bytes\) ==> \1_from_le(bytes)
//@sub :: < Self > ==> ::<AccountData>
//@sub StorageResult < Self > ==> StorageResult<AccountStorage>
verus! {
pub enum StorageError { DirtyChanges, Sqlite, NotFound { key_hash: u8 }, IllegalData { key_hash: u8 } }
pub type StorageResult<T> = core::result::Result<T, StorageError>;
pub type Result<T> = core::result::Result<T, StorageError>;
pub type M = Map<Seq<u8>, Seq<u8>>;
pub open spec fn opt(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn look(m: M, k: Seq<u8>) -> Option<Seq<u8>> { if m.contains_key(k) { Some(m[k]) } else { None } }

// ---------------------------------------------------------------- assumed contracts
#[derive(Clone, Copy)]
pub struct Layer(pub u64);
#[verifier::external_body]
pub struct Key { s: String }
impl Key {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { self.s.as_bytes() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &Key) ensures r == self { self }
}
pub trait FmtArg { spec fn shown(&self) -> Seq<u8>; }
impl FmtArg for Key { open spec fn shown(&self) -> Seq<u8> { self.bytes() } }
pub uninterp spec fn dec(n: int) -> Seq<u8>;
impl FmtArg for u32 { open spec fn shown(&self) -> Seq<u8> { dec(*self as int) } }
/// Decimal notation tells numbers apart.
pub broadcast axiom fn dec_injective(a: int, b: int) ensures #[trigger] dec(a) == #[trigger] dec(b) ==> a == b;
pub struct Address(pub [u8; 20]);
pub uninterp spec fn hex(a: Seq<u8>) -> Seq<u8>;
/// 20 bytes are shown as 40 hexadecimal digits, which tell them apart.
pub broadcast axiom fn hex_len(a: Seq<u8>) ensures a.len() == 20 ==> (#[trigger] hex(a)).len() == 40;
pub broadcast axiom fn hex_injective(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] hex(a) == #[trigger] hex(b) ==> a == b;
impl Address {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: Key) ensures r.bytes() == hex(self.0@) { unimplemented!() }
}

/// crate::Storage, by the contracts proved in storage.rs (keys stand for their hashes).
pub struct Store { pub cur: Ghost<M>, pub hist: Ghost<spec_fn(int) -> M> }
impl Store {
    #[verifier::external_body]
    pub fn get(&self, key: &[u8], layer_id: Option<i64>) -> (r: Result<Option<Vec<u8>>>)
        ensures r matches Ok(v) ==> opt(v) == look(match layer_id { None => self.cur@, Some(l) => (self.hist@)(l as int) }, key@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn upsert<V: Bytes>(&mut self, key: &[u8], value: V)
        ensures final(self).hist@ == old(self).hist@, final(self).cur@ == old(self).cur@.insert(key@, value.content())
    { unimplemented!() }
}
pub trait Bytes { spec fn content(&self) -> Seq<u8>; }
impl Bytes for &[u8] { open spec fn content(&self) -> Seq<u8> { self@ } }
impl Bytes for Vec<u8> { open spec fn content(&self) -> Seq<u8> { self@ } }
pub struct GlobalState { pub st: Store, pub layer_query_parameter: Option<Layer> }

/// Encodings that decode to what was encoded (C13).
pub trait Codec: Sized {
    spec fn enc(&self) -> Seq<u8>;
    spec fn same(&self, o: Self) -> bool;
    fn encode_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.enc();
    fn decode_bytes(b: Vec<u8>) -> (r: core::result::Result<Self, u8>)
        ensures forall|x: Self| b@ == #[trigger] x.enc() ==> (r is Ok && r->Ok_0.same(x));
}
pub uninterp spec fn enc_mut(balance: u64, counter: u128) -> Seq<u8>;
impl Codec for AccountMut {
    open spec fn enc(&self) -> Seq<u8> { enc_mut(self.balance, self.counter) }
    open spec fn same(&self, o: Self) -> bool { *self == o }
    #[verifier::external_body]
    fn encode_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn decode_bytes(b: Vec<u8>) -> (r: core::result::Result<Self, u8>) { unimplemented!() }
}

pub struct RawVar { pub offset: u32, pub byte_size: u32 }
/// svm_layout::FixedLayout, by the contracts proved in layout.rs.
#[verifier::external_body]
pub struct FixedLayout { x: u8 }
impl FixedLayout {
    pub uninterp spec fn offset_of(&self, id: u32) -> int;
    pub uninterp spec fn size_of(&self, id: u32) -> int;
    #[verifier::external_body]
    pub fn get(&self, id: u32) -> (r: RawVar) ensures r.offset == self.offset_of(id), r.byte_size == self.size_of(id) { unimplemented!() }
}
pub struct AccountStorage { pub gs: GlobalState, pub address: Address, pub template_addr: TemplateAddr, pub layout: FixedLayout }
impl FixedLayout {
    pub uninterp spec fn dflt() -> FixedLayout;
    #[verifier::external_body]
    pub fn default() -> (r: FixedLayout) ensures r == FixedLayout::dflt() { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct TemplateAddr(pub [u8; 20]);
impl TemplateAddr {
    pub uninterp spec fn stub_spec() -> TemplateAddr;
    #[verifier::external_body]
    pub fn stub() -> (r: TemplateAddr) ensures r == TemplateAddr::stub_spec() { unimplemented!() }
}
impl Address {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Address) ensures r == *self { unimplemented!() }
}
/// The layout stored with a template, as template_layout reads it (TemplateStorage is not under contract).
pub uninterp spec fn layout_of(m: M, t: TemplateAddr) -> FixedLayout;
#[verifier::external_body]
pub fn template_layout(gs: &GlobalState, template_addr: &TemplateAddr) -> (r: StorageResult<FixedLayout>)
    ensures r matches Ok(l) ==> l == layout_of(gs.seen(), *template_addr)
{ unimplemented!() }
pub uninterp spec fn enc_data(name: Seq<u8>, t: TemplateAddr) -> Seq<u8>;
impl Codec for AccountData {
    open spec fn enc(&self) -> Seq<u8> { enc_data(self.name.bytes(), self.template_addr) }
    open spec fn same(&self, o: Self) -> bool { self.name.bytes() == o.name.bytes() && self.template_addr == o.template_addr }
    #[verifier::external_body]
    fn encode_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn decode_bytes(b: Vec<u8>) -> (r: core::result::Result<Self, u8>) { unimplemented!() }
}

#[verifier::external_body]
pub fn rt_panic() ensures false { panic!() }
#[verifier::external_body]
pub fn i64_from(x: u32) -> (r: i64) ensures r == x { x as i64 }
#[verifier::external_body]
pub fn vec_repeat(x: u8, n: usize) -> (r: Vec<u8>) ensures r@ == Seq::new(n as nat, |i: int| x) { vec![x; n] }
#[verifier::external_body]
pub fn arr_slice(a: &[u8; 32]) -> (r: &[u8]) ensures r@ == a@ { &a[..] }
pub trait ToArr { fn to_arr32(self) -> (r: [u8; 32]); }
pub trait Arr: Sized { spec fn seq(&self) -> Seq<u8>; fn to_arr32(self) -> (r: [u8; 32]) ensures r@ == self.seq(); }
impl Arr for Vec<u8> {
    open spec fn seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn to_arr32(self) -> (r: [u8; 32]) { unimplemented!() }
}
pub trait Le: Sized { spec fn le(&self) -> Seq<u8>; fn le_bytes(self) -> (r: Vec<u8>) ensures r@ == self.le(), r@.len() <= 16; }
pub uninterp spec fn i64_le(x: i64) -> Seq<u8>;
impl Le for i64 { open spec fn le(&self) -> Seq<u8> { i64_le(*self) } #[verifier::external_body] fn le_bytes(self) -> (r: Vec<u8>) { unimplemented!() } }
#[verifier::external_body]
pub fn i64_from_le(b: [u8; 8]) -> (r: i64) ensures i64_le(r) == b@ { unimplemented!() }
pub uninterp spec fn i32_le(x: i32) -> Seq<u8>;
impl Le for i32 { open spec fn le(&self) -> Seq<u8> { i32_le(*self) } #[verifier::external_body] fn le_bytes(self) -> (r: Vec<u8>) { unimplemented!() } }
#[verifier::external_body]
pub fn i32_from_le(b: [u8; 4]) -> (r: i32) ensures i32_le(r) == b@ { unimplemented!() }
pub struct RangeInclusive<T> { pub a: T, pub b: T }
impl RangeInclusive<usize> {
    pub fn new(a: usize, b: usize) -> (r: Self) ensures r.a == a, r.b == b { RangeInclusive { a, b } }
    pub fn start(&self) -> (r: &usize) ensures *r == self.a { &self.a }
    pub fn end(&self) -> (r: &usize) ensures *r == self.b { &self.b }
    pub fn clone(&self) -> (r: Self) ensures r == *self { RangeInclusive { a: self.a, b: self.b } }
}
pub trait Slices {
    spec fn all(&self) -> Seq<u8>;
    /// self[r].copy_from_slice(s): panics unless the lengths agree.
    fn copy_range(&mut self, r: RangeInclusive<usize>, s: &[u8])
        requires r.a <= r.b < old(self).all().len(), s@.len() == r.b - r.a + 1,
        ensures final(self).all() == old(self).all().subrange(0, r.a as int) + s@ + old(self).all().subrange(r.b + 1, old(self).all().len() as int);
    fn sub(&self, r: RangeInclusive<usize>) -> (o: &[u8])
        requires r.a <= r.b < self.all().len()
        ensures o@ == self.all().subrange(r.a as int, r.b + 1);
}
impl Slices for [u8; 32] {
    open spec fn all(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn copy_range(&mut self, r: RangeInclusive<usize>, s: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn sub(&self, r: RangeInclusive<usize>) -> (o: &[u8]) { unimplemented!() }
}
/// A `&mut [u8]` that is narrowed step by step: the buffer it came from, and the part it still covers.
pub struct Cur { pub buf: Ghost<Seq<u8>>, pub lo: Ghost<int>, pub hi: Ghost<int> }
impl Cur {
    pub open spec fn wf(&self) -> bool { 0 <= self.lo@ <= self.hi@ <= self.buf@.len() <= usize::MAX }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) requires self.wf() ensures r == self.hi@ - self.lo@ { unimplemented!() }
    #[verifier::external_body]
    pub fn keep(&mut self, n: usize)
        requires old(self).wf(), n <= old(self).hi@ - old(self).lo@
        ensures final(self).buf@ == old(self).buf@, final(self).lo@ == old(self).lo@, final(self).hi@ == old(self).lo@ + n
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(&mut self, n: usize)
        requires old(self).wf(), n <= old(self).hi@ - old(self).lo@
        ensures final(self).buf@ == old(self).buf@, final(self).lo@ == old(self).lo@ + n, final(self).hi@ == old(self).hi@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_at(&mut self, a: usize, b: usize, s: &[u8])
        requires old(self).wf(), a <= b <= old(self).hi@ - old(self).lo@, s@.len() == b - a
        ensures final(self).lo@ == old(self).lo@, final(self).hi@ == old(self).hi@, final(self).buf@.len() == old(self).buf@.len(),
            forall|i: int| 0 <= i < old(self).buf@.len() ==> #[trigger] final(self).buf@[i] == if old(self).lo@ + a <= i < old(self).lo@ + b { s@[i - old(self).lo@ - a] } else { old(self).buf@[i] },
    { unimplemented!() }
}
//@include iter.inc
/// usize::min
#[verifier::external_body]
pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { a.min(b) }

// ---------------------------------------------------------------- specification
//@item acc const:SEGMENT_SIZE
//@item acc struct:Segment
//@item acc struct:AccountMut
//@item acc struct:AccountData
//@fmt

pub open spec fn seg(a: Address, s: int) -> Seq<u8> { __fmt_key_account_var_segment_0_spec(hex(a.0@), dec(s)) }
pub open spec fn mkey(a: Address) -> Seq<u8> { __fmt_AccountMut_key_0_spec(hex(a.0@)) }
pub open spec fn dkey(a: Address) -> Seq<u8> { __fmt_AccountData_key_0_spec(hex(a.0@)) }
/// Byte p of the storage of account a.
pub open spec fn byte(m: M, a: Address, p: int) -> u8 { let k = seg(a, p / 32); if m.contains_key(k) { m[k][p % 32] } else { 0 } }

pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
/// The segments cover bytes offset .. offset + size - 1, in order.
pub open spec fn covers(s: Seq<Segment>, a: Address, offset: int, size: int) -> bool {
    &&& s.len() == (offset + size - 1) / 32 - offset / 32 + 1
    &&& forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).key.bytes() == seg(a, offset / 32 + j)
            && s[j].range.a == (if j == 0 { offset % 32 } else { 0 })
            && s[j].range.b == imin(31, offset + size - 1 - 32 * (offset / 32 + j))
}
/// How many bytes the first j segments hold.
pub open spec fn upto(j: int, offset: int, size: int) -> int { if j == 0 { 0 } else { imin(size, 32 * (offset / 32 + j) - offset) } }

proof fn tails(p: Seq<u8>, a: Seq<u8>, q: Seq<u8>, b: Seq<u8>)
    requires p + a == q + b, p.len() == q.len()
    ensures p == q, a == b
{
    assert(p =~= (p + a).subrange(0, p.len() as int));
    assert(q =~= (q + b).subrange(0, q.len() as int));
    assert(a =~= (p + a).subrange(p.len() as int, (p + a).len() as int));
    assert(b =~= (q + b).subrange(q.len() as int, (q + b).len() as int));
}
/// Different segments, and segments of different accounts, have different keys; none is a key of anything else.
proof fn keys(a: Address, s: int, b: Address, t: int)
    ensures seg(a, s) == seg(b, t) ==> a.0@ == b.0@ && s == t,
        seg(a, s) != mkey(b), seg(a, s) != dkey(b), mkey(a) != dkey(b), mkey(a) == mkey(b) ==> a.0@ == b.0@, dkey(a) == dkey(b) ==> a.0@ == b.0@,
{
    broadcast use dec_injective, hex_len, hex_injective;
    let (h, g) = (hex(a.0@), hex(b.0@));
    assert(h.len() == 40 && g.len() == 40);
    if seg(a, s) == seg(b, t) {
        let e = Seq::<u8>::empty();
        assert(seg(a, s) =~= seg(b, t));
        let w = seg(a, s).len();
        // same literals: the account's digits are at the same place, and the rest is the segment's number
        assert(h =~= seg(a, s).subrange(9, 49));
        assert(g =~= seg(b, t).subrange(9, 49));
        assert(dec(s) =~= seg(a, s).subrange(63, w as int));
        assert(dec(t) =~= seg(b, t).subrange(63, w as int));
    }
    assert(seg(a, s)[50] != mkey(b)[50]);
    assert(seg(a, s)[50] != dkey(b)[50]);
    assert(mkey(a)[50] != dkey(b)[50]);
    if mkey(a) == mkey(b) { assert(h =~= mkey(a).subrange(9, 49)); assert(g =~= mkey(b).subrange(9, 49)); }
    if dkey(a) == dkey(b) { assert(h =~= dkey(a).subrange(9, 49)); assert(g =~= dkey(b).subrange(9, 49)); }
}
/// Writing one segment changes exactly that segment's bytes.
proof fn put_byte(m: M, a: Address, s: int, v: Seq<u8>)
    ensures forall|p: int| p / 32 == s ==> #[trigger] byte(m.insert(seg(a, s), v), a, p) == v[p % 32],
        forall|p: int| p / 32 != s ==> #[trigger] byte(m.insert(seg(a, s), v), a, p) == byte(m, a, p),
{
    assert forall|p: int| p / 32 != s implies #[trigger] byte(m.insert(seg(a, s), v), a, p) == byte(m, a, p) by { keys(a, s, a, p / 32); }
}
/// The account is left alone except for its bytes lo .. hi - 1.
pub open spec fn only_segments(m: M, n: M, a: Address) -> bool {
    forall|k: Seq<u8>| (forall|s: int| k != #[trigger] seg(a, s)) ==> #[trigger] look(n, k) == look(m, k)
}
proof fn others(m: M, n: M, a: Address, b: Address)
    requires only_segments(m, n, a), a.0@ != b.0@
    ensures forall|p: int| #[trigger] byte(n, b, p) == byte(m, b, p), look(n, mkey(b)) == look(m, mkey(b)), look(n, mkey(a)) == look(m, mkey(a)), look(n, dkey(a)) == look(m, dkey(a))
{
    assert forall|p: int| #[trigger] byte(n, b, p) == byte(m, b, p) by {
        assert forall|s: int| seg(b, p / 32) != #[trigger] seg(a, s) by { keys(b, p / 32, a, s); }
        assert(look(n, seg(b, p / 32)) == look(m, seg(b, p / 32)));
    }
    assert forall|s: int| mkey(b) != #[trigger] seg(a, s) by { keys(a, s, b, 0); }
    assert forall|s: int| mkey(a) != #[trigger] seg(a, s) by { keys(a, s, a, 0); }
    assert forall|s: int| dkey(a) != #[trigger] seg(a, s) by { keys(a, s, a, 0); }
}

impl GlobalState {
    /// What reads see.
    pub open spec fn seen(&self) -> M { match self.layer_query_parameter { None => self.st.cur@, Some(l) => (self.st.hist@)(l.0 as i64 as int) } }

//@fn gs GlobalState::query_layer_id
//@contract
    ensures r == match self.layer_query_parameter { None => None, Some(l) => Some(l.0 as i64) }
//@endfn

//@fn gs GlobalState::read_and_decode
//@contract
    ensures
        look(self.seen(), key.bytes()) is None ==> r is Err,
        forall|x: T| look(self.seen(), key.bytes()) == Some(#[trigger] x.enc()) && r is Ok ==> r->Ok_0.same(x),
//@endfn

//@fn gs GlobalState::encode_and_write
//@contract
    ensures final(self).st.cur@ == old(self).st.cur@.insert(key.bytes(), item.enc()), final(self).st.hist@ == old(self).st.hist@,
        final(self).layer_query_parameter == old(self).layer_query_parameter,
//@endfn

//@fn gs GlobalState::replace
//@contract
    requires forall|x: T| f.requires((x,)),
    ensures
        final(self).st.hist@ == old(self).st.hist@, final(self).layer_query_parameter == old(self).layer_query_parameter,
        r is Err ==> final(self).st.cur@ == old(self).st.cur@,
        r is Ok ==> exists|x: T, y: T| #[trigger] f.ensures((x,), y) && final(self).st.cur@ == old(self).st.cur@.insert(key.bytes(), y.enc())
            && (forall|z: T| look(old(self).seen(), key.bytes()) == Some(#[trigger] z.enc()) ==> x.same(z)),
//@endfn
}

impl Segment {
//@fn acc Segment::len
//@contract
    requires self.range.a <= self.range.b, self.range.b < usize::MAX
    ensures r == self.range.b - self.range.a + 1
//@endfn
}

impl AccountMut {
//@fn acc AccountMut::key
//@contract
    ensures r.bytes() == mkey(*account_addr)
//@endfn
}
impl AccountData {
//@fn acc AccountData::read
//@local StorageResult < Self > ==> StorageResult<AccountData>
//@contract
    ensures r is Ok ==> forall|x: AccountData| look(gs.seen(), dkey(*address)) == Some(#[trigger] x.enc()) ==> r->Ok_0.same(x)
//@endfn
//@fn acc AccountData::key
//@contract
    ensures r.bytes() == dkey(*account_addr)
//@endfn
}

//@fn acc key_account_var_segment
//@contract
    ensures r.bytes() == seg(*account_addr, segment as int)
//@endfn

//@fn acc var_segments
//@local \(segment_start \+ byte_size as usize - 1\)\.min \(SEGMENT_SIZE - 1\) ==> umin(segment_start + byte_size as usize - 1, SEGMENT_SIZE - 1)
//@local \(SEGMENT_SIZE - 1\)\.min \(remaining_size as usize - 1\) ==> umin(SEGMENT_SIZE - 1, remaining_size as usize - 1)
//@contract
    requires byte_size >= 1, offset + byte_size <= u32::MAX
    ensures covers(r@, *account_addr, offset as int, byte_size as int)
//@inv 0
    invariant
        byte_size >= 1, offset + byte_size <= u32::MAX, segment_start == 0,
        segments@.len() >= 1, segment_index == offset / 32 + segments@.len() - 1, segment_index * 32 <= offset + byte_size + 32,
        remaining_size <= offset + byte_size - 32 * (segment_index + 1) + 0 || remaining_size <= 0,
        remaining_size > 0 ==> remaining_size == offset + byte_size - 32 * (segment_index + 1),
        remaining_size <= 0 ==> offset + byte_size <= 32 * (segment_index + 1) && offset + byte_size > 32 * segment_index,
        remaining_size > -64,
        forall|j: int| 0 <= j < segments@.len() ==> (#[trigger] segments@[j]).key.bytes() == seg(*account_addr, offset as int / 32 + j)
            && segments@[j].range.a == (if j == 0 { offset as int % 32 } else { 0 })
            && segments@[j].range.b == imin(31, offset + byte_size - 1 - 32 * (offset as int / 32 + j)),
    decreases remaining_size + 64
//@endfn

impl AccountStorage {
    pub open spec fn off(&self, id: u32) -> int { self.layout.offset_of(id) }
    pub open spec fn size(&self, id: u32) -> int { self.layout.size_of(id) }
    pub open spec fn var_ok(&self, id: u32) -> bool { 0 <= self.off(id) && 1 <= self.size(id) && self.off(id) + self.size(id) <= u32::MAX }
    /// The bytes of variable id.
    pub open spec fn var(&self, m: M, id: u32) -> Seq<u8> { Seq::new(self.size(id) as nat, |i: int| byte(m, self.address, self.off(id) + i)) }

//@fn acc AccountStorage::get_var
//@contract
    requires self.var_ok(var_id), old(var).wf(), old(var).lo@ == 0, old(var).hi@ == old(var).buf@.len(),
    ensures
        r is Ok ==> final(var).buf@.len() == old(var).buf@.len() && self.size(var_id) <= old(var).buf@.len(),
        r is Ok ==> final(var).buf@.subrange(0, self.size(var_id)) == self.var(self.gs.seen(), var_id),
        r is Ok ==> forall|i: int| self.size(var_id) <= i < old(var).buf@.len() ==> #[trigger] final(var).buf@[i] == old(var).buf@[i],
//@begin
    let ghost (o, n) = (self.off(var_id), self.size(var_id));
    let ghost buf0 = var.buf@;
//@inv 0
    invariant
        self.var_ok(var_id), o == self.off(var_id), n == self.size(var_id), var.wf(), var.buf@.len() == buf0.len(), n <= buf0.len(),
        0 <= __it0.i@ <= __it0.v@.len(), covers(__it0.v@, self.address, o, n),
        var.lo@ == upto(__it0.i@, o, n), var.hi@ == n,
        forall|i: int| 0 <= i < upto(__it0.i@, o, n) ==> #[trigger] var.buf@[i] == byte(self.gs.seen(), self.address, o + i),
        forall|i: int| n <= i < buf0.len() ==> #[trigger] var.buf@[i] == buf0[i],
    ensures __it0.i@ == __it0.v@.len(), var.buf@.len() == buf0.len(), n <= buf0.len(), covers(__it0.v@, self.address, o, n),
        forall|i: int| 0 <= i < upto(__it0.i@, o, n) ==> #[trigger] var.buf@[i] == byte(self.gs.seen(), self.address, o + i),
        forall|i: int| n <= i < buf0.len() ==> #[trigger] var.buf@[i] == buf0[i],
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost j = __it0.i@;
    let ghost b0 = var.buf@;
    proof { if j < __it0.v@.len() { let s = __it0.v@[j]; assert(s.range.b - s.range.a + 1 == upto(j + 1, o, n) - upto(j, o, n)); } }
//@bot 0
    proof {
        assert forall|i: int| 0 <= i < upto(j + 1, o, n) implies #[trigger] var.buf@[i] == byte(self.gs.seen(), self.address, o + i) by {
            if i < upto(j, o, n) { assert(var.buf@[i] == b0[i]); }
            else { assert((o + i) / 32 == o / 32 + j); }
        }
    }
//@end
    proof { assert(upto(__it0_len(o, n), o, n) == n); assert(var.buf@.subrange(0, n) =~= self.var(self.gs.seen(), var_id)); }
//@endfn

    /// get_var on a whole vector or array: `&mut bytes` is a slice that covers it.
    #[verifier::external_body]
    pub fn get_var_buf<B: Buf>(&self, var_id: u32, bytes: &mut B) -> (r: StorageResult<()>)
        requires self.var_ok(var_id)
        ensures
            r is Ok ==> final(bytes).content().len() == old(bytes).content().len() && self.size(var_id) <= old(bytes).content().len(),
            r is Ok ==> final(bytes).content().subrange(0, self.size(var_id)) == self.var(self.gs.seen(), var_id),
            r is Ok ==> forall|i: int| self.size(var_id) <= i < old(bytes).content().len() ==> #[trigger] final(bytes).content()[i] == old(bytes).content()[i],
    { unimplemented!() }

//@fn acc AccountStorage::get_var_vec
//@contract
    requires self.var_ok(var_id)
    ensures r matches Ok(v) ==> v@ == self.var(self.gs.seen(), var_id)
//@end
    proof { if __result is Ok { assert(__result->Ok_0@ =~= self.var(self.gs.seen(), var_id)); } }
//@endfn

//@fn acc AccountStorage::set_var_bytes
//@contract
    requires old(self).var_ok(var_id), new_value@.len() <= u32::MAX
    ensures
        final(self).address == old(self).address, final(self).layout == old(self).layout,
        final(self).gs.st.hist@ == old(self).gs.st.hist@, final(self).gs.layer_query_parameter == old(self).gs.layer_query_parameter,
        r is Ok ==> old(self).size(var_id) <= new_value@.len(),
        // exactly the variable's own bytes change
        r is Ok ==> forall|p: int| p >= 0 ==> #[trigger] byte(final(self).gs.st.cur@, old(self).address, p) == if old(self).off(var_id) <= p < old(self).off(var_id) + old(self).size(var_id) { new_value@[p - old(self).off(var_id)] }
            else { byte(old(self).gs.st.cur@, old(self).address, p) },
        r is Ok ==> only_segments(old(self).gs.st.cur@, final(self).gs.st.cur@, old(self).address),
//@begin
    let ghost (o, n) = (self.off(var_id), self.size(var_id));
    let ghost val = new_value@;
    let ghost m0 = self.gs.st.cur@;
//@inv 0
    invariant
        old(self).var_ok(var_id), o == old(self).off(var_id), n == old(self).size(var_id), n <= val.len(), val.len() <= u32::MAX,
        m0 == old(self).gs.st.cur@,
        self.address == old(self).address, self.layout == old(self).layout, self.gs.st.hist@ == old(self).gs.st.hist@, self.gs.layer_query_parameter == old(self).gs.layer_query_parameter,
        0 <= __it0.i@ <= __it0.v@.len(), covers(__it0.v@, self.address, o, n),
        new_value@ == val.subrange(upto(__it0.i@, o, n), n),
        forall|p: int| p >= 0 ==> #[trigger] byte(self.gs.st.cur@, self.address, p) == if o <= p < o + upto(__it0.i@, o, n) { val[p - o] } else { byte(m0, self.address, p) },
        only_segments(m0, self.gs.st.cur@, self.address),
    ensures __it0.i@ == __it0.v@.len(), covers(__it0.v@, self.address, o, n),
        forall|p: int| p >= 0 ==> #[trigger] byte(self.gs.st.cur@, self.address, p) == if o <= p < o + upto(__it0.i@, o, n) { val[p - o] } else { byte(m0, self.address, p) },
        only_segments(m0, self.gs.st.cur@, self.address),
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost j = __it0.i@;
    let ghost m1 = self.gs.st.cur@;
    proof { if j < __it0.v@.len() { let s = __it0.v@[j]; assert(s.range.b - s.range.a + 1 == upto(j + 1, o, n) - upto(j, o, n)); } }
//@bot 0
    proof {
        let s = o / 32 + j;
        put_byte(m1, self.address, s, bytes@);
        assert(self.gs.st.cur@ == m1.insert(seg(self.address, s), bytes@));
        assert forall|p: int| p >= 0 implies #[trigger] byte(self.gs.st.cur@, self.address, p) == if o <= p < o + upto(j + 1, o, n) { val[p - o] } else { byte(m0, self.address, p) } by {
            assert(byte(m1, self.address, p) == if o <= p < o + upto(j, o, n) { val[p - o] } else { byte(m0, self.address, p) });
            if p / 32 == s { assert(bytes@[p % 32] == byte(self.gs.st.cur@, self.address, p)); } else { assert(byte(self.gs.st.cur@, self.address, p) == byte(m1, self.address, p)); }
        }
        assert(new_value@ =~= val.subrange(upto(j + 1, o, n), n));
        assert forall|k: Seq<u8>| (forall|t: int| k != #[trigger] seg(self.address, t)) implies #[trigger] look(self.gs.st.cur@, k) == look(m0, k) by {
            assert(k != seg(self.address, s)); assert(look(m1, k) == look(m0, k));
        }
    }
//@end
    proof { assert(upto(__it0_len(o, n), o, n) == n); }
//@endfn


//@fn acc AccountStorage::get_var_i64
//@contract
    requires self.var_ok(var_id)
    ensures r is Ok ==> self.size(var_id) <= 8,
        r is Ok && self.size(var_id) == 8 ==> i64_le(r->Ok_0) == self.var(self.gs.seen(), var_id),
//@end
    proof { if __result is Ok && self.size(var_id) == 8 { assert(bytes@ =~= bytes@.subrange(0, 8)); } }
//@endfn

//@fn acc AccountStorage::set_var_i64
//@contract
    requires old(self).var_ok(var_id)
    ensures
        final(self).address == old(self).address, final(self).layout == old(self).layout,
        final(self).gs.st.hist@ == old(self).gs.st.hist@, final(self).gs.layer_query_parameter == old(self).gs.layer_query_parameter,
        r is Ok ==> forall|p: int| p >= 0 ==> #[trigger] byte(final(self).gs.st.cur@, old(self).address, p) == if old(self).off(var_id) <= p < old(self).off(var_id) + old(self).size(var_id) { i64_le(new_value)[p - old(self).off(var_id)] }
            else { byte(old(self).gs.st.cur@, old(self).address, p) },
        r is Ok ==> only_segments(old(self).gs.st.cur@, final(self).gs.st.cur@, old(self).address),
//@endfn

//@fn acc AccountStorage::get_var_i32
//@contract
    requires self.var_ok(var_id)
    ensures r is Ok ==> self.size(var_id) <= 4,
        r is Ok && self.size(var_id) == 4 ==> i32_le(r->Ok_0) == self.var(self.gs.seen(), var_id),
//@end
    proof { if __result is Ok && self.size(var_id) == 4 { assert(bytes@ =~= bytes@.subrange(0, 4)); } }
//@endfn

//@fn acc AccountStorage::set_var_i32
//@contract
    requires old(self).var_ok(var_id)
    ensures
        final(self).address == old(self).address, final(self).layout == old(self).layout,
        final(self).gs.st.hist@ == old(self).gs.st.hist@, final(self).gs.layer_query_parameter == old(self).gs.layer_query_parameter,
        r is Ok ==> forall|p: int| p >= 0 ==> #[trigger] byte(final(self).gs.st.cur@, old(self).address, p) == if old(self).off(var_id) <= p < old(self).off(var_id) + old(self).size(var_id) { i32_le(new_value)[p - old(self).off(var_id)] }
            else { byte(old(self).gs.st.cur@, old(self).address, p) },
        r is Ok ==> only_segments(old(self).gs.st.cur@, final(self).gs.st.cur@, old(self).address),
//@endfn

//@fn acc AccountStorage::get_var_array
//@contract
    requires self.var_ok(var_id)
    ensures r is Ok ==> self.size(var_id) <= N && r->Ok_0@.subrange(0, self.size(var_id)) == self.var(self.gs.seen(), var_id)
//@endfn

//@fn acc AccountStorage::create_stub
//@contract
    ensures r matches Ok(s) && s.address == *address && s.layout == FixedLayout::dflt()
        && s.gs.st.cur@ == gs.st.cur@.insert(dkey(*address), enc_data(name.bytes(), TemplateAddr::stub_spec())).insert(mkey(*address), enc_mut(balance, counter))
        && s.gs.st.hist@ == gs.st.hist@ && s.gs.layer_query_parameter == gs.layer_query_parameter && s.template_addr == TemplateAddr::stub_spec(),
//@endfn

//@fn acc AccountStorage::create
//@contract
    ensures r matches Ok(s) ==> s.address == *address && s.template_addr == template_addr && s.layout == layout_of(gs.seen(), template_addr)
        && s.gs.st.cur@ == gs.st.cur@.insert(dkey(*address), enc_data(name.bytes(), template_addr)).insert(mkey(*address), enc_mut(balance, counter))
        && s.gs.st.hist@ == gs.st.hist@ && s.gs.layer_query_parameter == gs.layer_query_parameter,
//@endfn

//@fn acc AccountStorage::load
//@contract
    ensures r matches Ok(s) ==> s.gs == gs && s.address == *address && s.layout == layout_of(gs.seen(), s.template_addr)
        && forall|x: AccountData| look(gs.seen(), dkey(*address)) == Some(#[trigger] x.enc()) ==> s.template_addr == x.template_addr,
//@endfn

//@fn acc AccountStorage::name
//@contract
    ensures r is Ok ==> forall|x: AccountData| look(self.gs.seen(), dkey(self.address)) == Some(#[trigger] x.enc()) ==> r->Ok_0.bytes() == x.name.bytes()
//@endfn

//@fn acc AccountStorage::template_addr
//@result
//@contract
    ensures r is Ok ==> forall|x: AccountData| look(self.gs.seen(), dkey(self.address)) == Some(#[trigger] x.enc()) ==> r->Ok_0 == x.template_addr
//@endfn

//@fn acc AccountStorage::balance
//@result
//@contract
    ensures forall|b: u64, c: u128| look(self.gs.seen(), mkey(self.address)) == Some(#[trigger] enc_mut(b, c)) && r is Ok ==> r->Ok_0 == b
//@begin
    proof { assert forall|b: u64, c: u128| #[trigger] enc_mut(b, c) == (AccountMut { balance: b, counter: c }).enc() by {} }
//@endfn

//@fn acc AccountStorage::counter
//@result
//@contract
    ensures forall|b: u64, c: u128| look(self.gs.seen(), mkey(self.address)) == Some(#[trigger] enc_mut(b, c)) && r is Ok ==> r->Ok_0 == c
//@begin
    proof { assert forall|b: u64, c: u128| #[trigger] enc_mut(b, c) == (AccountMut { balance: b, counter: c }).enc() by {} }
//@endfn

//@fn acc AccountStorage::set_balance
//@local \| mut data : AccountMut \| \{ ==> |data0: AccountMut| -> (out: AccountMut) ensures out.balance == balance, out.counter == data0.counter { let mut data = data0;
//@contract
    ensures
        final(self).address == old(self).address, final(self).layout == old(self).layout, final(self).gs.st.hist@ == old(self).gs.st.hist@,
        r is Err ==> final(self).gs.st.cur@ == old(self).gs.st.cur@,
        forall|b: u64, c: u128| look(old(self).gs.seen(), mkey(old(self).address)) == Some(#[trigger] enc_mut(b, c)) && r is Ok
            ==> final(self).gs.st.cur@ == old(self).gs.st.cur@.insert(mkey(old(self).address), enc_mut(balance, c)),
//@begin
    proof { assert forall|b: u64, c: u128| #[trigger] enc_mut(b, c) == (AccountMut { balance: b, counter: c }).enc() by {} }
//@endfn

//@fn acc AccountStorage::set_counter
//@local \| mut data : AccountMut \| \{ ==> |data0: AccountMut| -> (out: AccountMut) ensures out.counter == counter, out.balance == data0.balance { let mut data = data0;
//@contract
    ensures
        final(self).address == old(self).address, final(self).layout == old(self).layout, final(self).gs.st.hist@ == old(self).gs.st.hist@,
        r is Err ==> final(self).gs.st.cur@ == old(self).gs.st.cur@,
        forall|b: u64, c: u128| look(old(self).gs.seen(), mkey(old(self).address)) == Some(#[trigger] enc_mut(b, c)) && r is Ok
            ==> final(self).gs.st.cur@ == old(self).gs.st.cur@.insert(mkey(old(self).address), enc_mut(b, counter)),
//@begin
    proof { assert forall|b: u64, c: u128| #[trigger] enc_mut(b, c) == (AccountMut { balance: b, counter: c }).enc() by {} }
//@endfn
}
pub open spec fn __it0_len(o: int, n: int) -> int { (o + n - 1) / 32 - o / 32 + 1 }
pub trait Buf { spec fn content(&self) -> Seq<u8>; }
impl<const N: usize> Buf for [u8; N] { open spec fn content(&self) -> Seq<u8> { self@ } }
impl Buf for Vec<u8> { open spec fn content(&self) -> Seq<u8> { self@ } }

/// Two variables that do not overlap are independent: writing one leaves the other as it was.
proof fn independent(s: AccountStorage, m: M, n: M, x: u32, y: u32, val: Seq<u8>)
    requires s.var_ok(x), s.var_ok(y), s.off(x) + s.size(x) <= s.off(y) || s.off(y) + s.size(y) <= s.off(x),
        forall|p: int| p >= 0 ==> #[trigger] byte(n, s.address, p) == if s.off(x) <= p < s.off(x) + s.size(x) { val[p - s.off(x)] } else { byte(m, s.address, p) },
    ensures s.var(n, y) == s.var(m, y), val.len() >= s.size(x) ==> s.var(n, x) == val.subrange(0, s.size(x))
{
    assert(s.var(n, y) =~= s.var(m, y));
    if val.len() >= s.size(x) { assert(s.var(n, x) =~= val.subrange(0, s.size(x))); }
}
}
fn main() {}
