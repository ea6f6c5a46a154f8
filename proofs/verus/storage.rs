use vstd::prelude::*;
//@src st crates/host/state/src/storage.rs
//@require crates/host/state/src/resources/schema.sql FOREIGN KEY\("layer_id"\) REFERENCES "layers"\("id"\) ON DELETE CASCADE
//@require crates/host/state/src/resources/schema.sql CREATE TABLE IF NOT EXISTS "layers"[^;]*"id" INTEGER NOT NULL UNIQUE
//@sub std :: mem :: take ==> mem_take
//@sub Pool < Sqlite > ==> Db
//@sub SqlitePool ==> Db
//@sub Into < Vec < u8 > > ==> IntoBytes
//@sub value\.into \(\) ==> value.into_bytes()
//@sub (\w+)\.0\.try_into \(\)\.unwrap \(\) ==> blob32(\1.0)
//@sub futures :: future :: try_join_all \( ==> self.sqlite.join_all(
//@sub & (\w+)\.0 \[ \.\. \] ==> arr_slice(&\1.0)
//@sub std :: u8 :: MAX ==> 255u8
//@sub Some \(INITIAL_LAYER_ID\) => ==> Some(__l) if __l == INITIAL_LAYER_ID =>
//@sub Blake3Hasher :: hash ==> Blake3Hasher::hash_bytes
verus! {

// ---------------------------------------------------------------- what the code stands on (assumed contracts)
pub enum StorageError { DirtyChanges, Sqlite, Other }
pub type Result<T> = core::result::Result<T, StorageError>;
pub type M = Map<Seq<u8>, Seq<u8>>;

#[derive(Clone, Copy)]
pub struct State(pub [u8; 32]);

/// Roots and crashes are specified or left out together with the property that needs them (see registry.py).
pub open spec fn roots() -> bool { /*?roots*/true }
pub open spec fn crashes() -> bool { /*?crashes*/true }
pub open spec fn fpv(s: Seq<u8>) -> Seq<u8> { if roots() { s } else { Seq::empty() } }
pub struct LayerRow { pub fp: Seq<u8>, pub complete: int, pub vals: M }
pub type DbState = Map<int, LayerRow>;

/// The database. `allowed` holds in every state the database may be left in by a crash: every write has to establish it.
pub struct Db { pub st: Ghost<DbState>, pub allowed: Ghost<spec_fn(DbState) -> bool> }
pub struct QueryResult { pub n: u64 }
impl QueryResult { pub fn rows_affected(&self) -> u64 { self.n } }
pub struct PendingInsert { pub layer: Ghost<int>, pub key: Ghost<Seq<u8>>, pub value: Ghost<Seq<u8>> }

pub open spec fn db_put(d: DbState, l: int, k: Seq<u8>, v: Seq<u8>) -> DbState {
    d.insert(l, LayerRow { fp: d[l].fp, complete: d[l].complete, vals: d[l].vals.insert(k, v) })
}
/// The map of the first n pending rows.
pub open spec fn rows(s: Seq<PendingInsert>, n: nat) -> M decreases n {
    if n == 0 { Map::empty() } else { rows(s, (n - 1) as nat).insert(s[n - 1].key@, s[n - 1].value@) }
}
pub open spec fn partial(d: DbState, e: DbState, l: int, m: M) -> bool {
    &&& e.dom() == d.dom()
    &&& forall|i: int| i != l && d.contains_key(i) ==> e[i] == d[i]
    &&& d.contains_key(l) ==> e[l].fp == d[l].fp && e[l].complete == d[l].complete
    &&& d.contains_key(l) ==> forall|k: Seq<u8>| #[trigger] e[l].vals.contains_key(k) ==> (d[l].vals.contains_key(k) && e[l].vals[k] == d[l].vals[k]) || (m.contains_key(k) && e[l].vals[k] == m[k])
}
impl Db {
    /// Runs the inserts in any order, possibly only some of them.
    #[verifier::external_body]
    pub fn join_all(&mut self, v: Vec<PendingInsert>) -> (r: Result<()>)
        requires
            forall|i: int, j: int| 0 <= i < j < v@.len() ==> v@[i].key@ != v@[j].key@ && v@[i].layer@ == v@[j].layer@,
            v@.len() > 0 ==> forall|k: Seq<u8>| old(self).st@.contains_key(v@[0].layer@) ==> !(#[trigger] old(self).st@[v@[0].layer@].vals.contains_key(k)),
            v@.len() > 0 ==> forall|e: DbState| #[trigger] partial(old(self).st@, e, v@[0].layer@, rows(v@, v@.len())) ==> (old(self).allowed@)(e),
        ensures
            final(self).allowed@ == old(self).allowed@,
            v@.len() == 0 ==> final(self).st@ == old(self).st@,
            v@.len() > 0 && r is Ok ==> old(self).st@.contains_key(v@[0].layer@) && final(self).st@ == old(self).st@.insert(v@[0].layer@,
                LayerRow { fp: old(self).st@[v@[0].layer@].fp, complete: old(self).st@[v@[0].layer@].complete, vals: rows(v@, v@.len()) }),
    { unimplemented!() }
}
pub trait SqlArg { spec fn as_int(&self) -> int; spec fn as_blob(&self) -> Seq<u8>; }
impl SqlArg for i64 { open spec fn as_int(&self) -> int { *self as int } open spec fn as_blob(&self) -> Seq<u8> { Seq::empty() } }
impl SqlArg for i32 { open spec fn as_int(&self) -> int { *self as int } open spec fn as_blob(&self) -> Seq<u8> { Seq::empty() } }
impl SqlArg for &[u8] { open spec fn as_int(&self) -> int { 0 } open spec fn as_blob(&self) -> Seq<u8> { self@ } }
impl SqlArg for Vec<u8> { open spec fn as_int(&self) -> int { 0 } open spec fn as_blob(&self) -> Seq<u8> { self@ } }

#[verifier::external_body]
pub fn arr_slice(a: &[u8; 32]) -> (r: &[u8]) ensures r@ == a@ { &a[..] }
#[verifier::external_body]
pub fn arr_vec(a: &[u8; 32]) -> (r: Vec<u8>) ensures r@ == a@ { a.to_vec() }
//@sub (\w+)\.0\.to_vec \(\) ==> arr_vec(&\1.0)
/// Vec<u8> -> [u8; 32]; a panic if the length differs (the schema CHECKs it).
#[verifier::external_body]
pub fn blob32(v: Vec<u8>) -> (r: [u8; 32]) ensures r@ == v@ { v.try_into().unwrap() }
#[verifier::external_body]
pub fn rt_assert(c: bool) ensures c { if !c { panic!() } }

pub trait IntoBytes: Sized { spec fn bytes(&self) -> Seq<u8>; fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.bytes(); }
impl IntoBytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } fn into_bytes(self) -> (r: Vec<u8>) { self } }

// std::collections::HashMap<State, Vec<u8>>
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<(K, V)> }
impl View for HashMap<State, Vec<u8>> { type V = M; uninterp spec fn view(&self) -> M; }
#[verifier::external_body]
pub struct MapIter { k: u8 }
impl View for MapIter { type V = M; uninterp spec fn view(&self) -> M; }
impl MapIter {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(State, Vec<u8>)>)
        ensures
            r is None ==> old(self)@.dom().len() == 0 && final(self)@ == old(self)@,
            r matches Some(p) ==> old(self)@.contains_key(p.0.0@) && old(self)@[p.0.0@] == p.1@ && final(self)@ == old(self)@.remove(p.0.0@),
    { unimplemented!() }
}
impl HashMap<State, Vec<u8>> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<u8>, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &State) -> (r: Option<&Vec<u8>>)
        ensures r matches Some(v) ==> self@.contains_key(k.0@) && self@[k.0@] == v@, r is None ==> !self@.contains_key(k.0@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &State) -> (r: bool) ensures r == self@.contains_key(k.0@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: State, v: Vec<u8>) -> (r: Option<Vec<u8>>)
        ensures final(self)@ == old(self)@.insert(k.0@, v@),
            r matches Some(o) ==> old(self)@.contains_key(k.0@) && old(self)@[k.0@] == o@, r is None ==> !old(self)@.contains_key(k.0@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &State) -> (r: Option<Vec<u8>>)
        ensures final(self)@ == old(self)@.remove(k.0@),
            r matches Some(o) ==> old(self)@.contains_key(k.0@) && old(self)@[k.0@] == o@, r is None ==> !old(self)@.contains_key(k.0@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<u8>, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn model_iter(self) -> (r: MapIter) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn mem_take(m: &mut HashMap<State, Vec<u8>>) -> (r: HashMap<State, Vec<u8>>)
    ensures r@ == old(m)@, final(m)@ == Map::<Seq<u8>, Seq<u8>>::empty()
{ unimplemented!() }

// the hash function: any function of the bytes fed to it, 32 bytes long
pub uninterp spec fn blake3(s: Seq<u8>) -> Seq<u8>;
pub struct Blake3Hasher { pub fed: Ghost<Seq<u8>> }
impl Blake3Hasher {
    pub fn default() -> (r: Self) ensures r.fed@ == Seq::<u8>::empty() { Blake3Hasher { fed: Ghost(Seq::empty()) } }
    #[verifier::external_body]
    pub fn update(&mut self, b: &[u8]) ensures final(self).fed@ == old(self).fed@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: [u8; 32]) ensures r@ == blake3(self.fed@) { unimplemented!() }
    #[verifier::external_body]
    pub fn hash_bytes(b: &[u8]) -> (r: [u8; 32]) ensures r@ == blake3(b@) { unimplemented!() }
}

// ---------------------------------------------------------------- specification
pub open spec fn zeros() -> Seq<u8> { Seq::new(32, |i: int| 0u8) }
pub open spec fn ones() -> Seq<u8> { Seq::new(32, |i: int| 255u8) }
pub open spec fn xor(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(32, |i: int| a[i] ^ b[i]) }
pub open spec fn kv(k: Seq<u8>, v: Seq<u8>) -> Seq<u8> { blake3(k + v) }

proof fn xor_algebra(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures xor(a, b) == xor(b, a), xor(a, xor(b, c)) == xor(xor(a, b), c), xor(a, a) == zeros(),
        a.len() == 32 ==> xor(a, zeros()) == a && xor(zeros(), a) == a,
{
    assert forall|x: u8, y: u8| x ^ y == y ^ x by { assert(x ^ y == y ^ x) by (bit_vector); }
    assert forall|x: u8, y: u8, z: u8| x ^ (y ^ z) == (x ^ y) ^ z by { assert(x ^ (y ^ z) == (x ^ y) ^ z) by (bit_vector); }
    assert forall|x: u8| x ^ x == 0u8 by { assert(x ^ x == 0u8) by (bit_vector); }
    assert forall|x: u8| x ^ 0u8 == x && 0u8 ^ x == x by { assert(x ^ 0u8 == x && 0u8 ^ x == x) by (bit_vector); }
    assert(xor(a, b) =~= xor(b, a));
    assert(xor(a, xor(b, c)) =~= xor(xor(a, b), c));
    assert(xor(a, a) =~= zeros());
    if a.len() == 32 { assert(xor(a, zeros()) =~= a); assert(xor(zeros(), a) =~= a); }
}

/// The XOR of the hashes of all entries.
pub open spec fn fold(m: M) -> Seq<u8> decreases m.dom().len() {
    if m.dom().len() == 0 { zeros() } else { let k = m.dom().choose(); xor(kv(k, m[k]), fold(m.remove(k))) }
}
proof fn fold_len(m: M) ensures fold(m).len() == 32 {}
proof fn fold_remove(m: M, k: Seq<u8>)
    requires m.contains_key(k)
    ensures fold(m) == xor(kv(k, m[k]), fold(m.remove(k)))
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().contains(k));
    assert(m.dom().len() > 0) by { if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); } }
    assert(m.dom().contains(c));
    if c != k {
        fold_remove(m.remove(c), k);
        fold_remove(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
        let r = fold(m.remove(c).remove(k));
        xor_algebra(kv(c, m[c]), kv(k, m[k]), r);
        xor_algebra(kv(k, m[k]), kv(c, m[c]), r);
    }
}
/// Replacing (or adding) one entry changes the fold by the hashes of the old and the new entry only.
proof fn fold_insert(m: M, k: Seq<u8>, v: Seq<u8>)
    ensures fold(m.insert(k, v)) == if m.contains_key(k) { xor(xor(fold(m), kv(k, m[k])), kv(k, v)) } else { xor(fold(m), kv(k, v)) }
{
    let n = m.insert(k, v);
    fold_remove(n, k);
    fold_len(m); fold_len(n.remove(k));
    if m.contains_key(k) {
        fold_remove(m, k);
        assert(n.remove(k) =~= m.remove(k));
        let r = fold(m.remove(k));
        let o = kv(k, m[k]);
        // (o ^ r) ^ o == r
        xor_algebra(o, r, o); xor_algebra(r, o, o); xor_algebra(o, o, r); xor_algebra(r, o, r);
        xor_algebra(kv(k, v), r, r);
    } else {
        assert(n.remove(k) =~= m);
        xor_algebra(kv(k, v), fold(m), fold(m));
    }
}

/// What layer l and the layers below it hold.
pub open spec fn contents(d: DbState, l: int) -> M decreases l + 3 {
    if l < -2 { Map::empty() } else if d.contains_key(l) { contents(d, l - 1).union_prefer_right(d[l].vals) } else { contents(d, l - 1) }
}
pub open spec fn parity(l: int) -> Seq<u8> decreases l + 3 { if l < 0 { zeros() } else { xor(parity(l - 1), ones()) } }
/// The root of layer l as a function of its number and its contents alone.
pub open spec fn root(l: int, c: M) -> Seq<u8> { xor(fold(c), parity(l)) }

proof fn parity_len(l: int) ensures parity(l).len() == 32 {}

proof fn contents_below(d: DbState, e: DbState, l: int)
    requires forall|i: int| i <= l ==> (d.contains_key(i) <==> e.contains_key(i)) && (d.contains_key(i) ==> d[i].vals == e[i].vals)
    ensures contents(d, l) == contents(e, l)
    decreases l + 3
{ if l >= -2 { contents_below(d, e, l - 1); } }

/// The newest row at or below l decides.
proof fn contents_hit(d: DbState, l: int, j: int, k: Seq<u8>)
    requires -2 <= j <= l, d.contains_key(j), d[j].vals.contains_key(k),
        forall|i: int| j < i <= l && d.contains_key(i) ==> !(#[trigger] d[i].vals.contains_key(k)),
    ensures contents(d, l).contains_key(k), contents(d, l)[k] == d[j].vals[k]
    decreases l - j
{ if l > j { contents_hit(d, l - 1, j, k); } }
proof fn contents_miss(d: DbState, l: int, k: Seq<u8>)
    requires forall|i: int| i <= l && d.contains_key(i) ==> !(#[trigger] d[i].vals.contains_key(k)),
    ensures !contents(d, l).contains_key(k)
    decreases l + 3
{ if l >= -2 { contents_miss(d, l - 1, k); } }

/// The layers are -2, -1, 0, ... n-1, all complete, and every root is the one its contents demand.
pub open spec fn chain(d: DbState, n: int) -> bool {
    &&& n >= -1
    &&& forall|i: int| d.contains_key(i) <==> -2 <= i < n
    &&& forall|i: int| -2 <= i < n ==> (#[trigger] d[i]).complete == 1 && d[i].fp == fpv(root(i, contents(d, i)))
    &&& d[-2].vals == Map::<Seq<u8>, Seq<u8>>::empty()
}
/// What an interrupted commit may leave on top: incomplete layers.
pub open spec fn recover(d: DbState) -> DbState { d.restrict(d.dom().filter(|i: int| d[i].complete != 0)) }

/// d recovers to e, entry by entry.
pub open spec fn rec_to(d: DbState, e: DbState) -> bool {
    forall|i: int| (#[trigger] e.contains_key(i) <==> d.contains_key(i) && d[i].complete != 0) && (e.contains_key(i) ==> e[i] == d[i])
}
proof fn rec_to_eq(d: DbState, e: DbState) ensures rec_to(d, e) <==> recover(d) == e
{ if rec_to(d, e) { assert(recover(d) =~= e); } }

pub open spec fn opt(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn look(m: M, k: Seq<u8>) -> Option<Seq<u8>> { if m.contains_key(k) { Some(m[k]) } else { None } }

//@item st type:Changes
//@item st const:INITIAL_LAYER_ID
//@item st struct:NextLayer
//@item st struct:Storage

exec const STATE_ZEROS: State ensures STATE_ZEROS.0@ == zeros() { let r = State([0u8; 32]); assert(r.0@ =~= zeros()); r }
exec const STATE_ONES: State ensures STATE_ONES.0@ == ones() { let r = State([255u8; 32]); assert(r.0@ =~= ones()); r }
exec const INITIAL_LAYER_STATE: State ensures INITIAL_LAYER_STATE.0@ == zeros() { let r = State([0u8; 32]); assert(r.0@ =~= zeros()); r }

impl Storage {
    pub open spec fn n(&self) -> int { self.next_layer.id as int }
    pub open spec fn base(&self) -> M { contents(self.sqlite.st@, self.n() - 1) }
    pub open spec fn with_saved(&self) -> M { self.base().union_prefer_right(self.next_layer.changes@) }
    /// Everything written so far.
    pub open spec fn current(&self) -> M { self.with_saved().union_prefer_right(self.dirty_changes@) }
    pub open spec fn wf_db(&self) -> bool { chain(self.sqlite.st@, self.n()) && self.n() < 0x7fff_ffff_ffff_ffff }
    pub open spec fn tick(&self) -> Seq<u8> { if self.n() == -1 { zeros() } else { ones() } }
    pub open spec fn wf(&self) -> bool {
        self.wf_db() && (roots() ==> self.next_layer.changes_xor_fingerprint.0@ == xor(xor(fold(self.base()), fold(self.with_saved())), self.tick()))
    }
    /// The database after a successful commit.
    pub open spec fn committed(&self) -> DbState {
        self.sqlite.st@.insert(self.n(), LayerRow { fp: fpv(root(self.n(), self.with_saved())), complete: 1, vals: self.next_layer.changes@ })
    }
    /// Same in-memory state and same database contents.
    pub open spec fn same(&self, o: &Storage) -> bool {
        self.sqlite.st@ == o.sqlite.st@ && self.dirty_changes@ == o.dirty_changes@ && self.next_layer.changes@ == o.next_layer.changes@
            && self.next_layer.id == o.next_layer.id && self.next_layer.changes_xor_fingerprint.0@ == o.next_layer.changes_xor_fingerprint.0@
    }
}
//@sql

impl Storage {

//@fn st Storage::delete_bad_layers mut
//@contract
    requires
        // a crash anywhere in here leaves something that recovers to the same
        forall|d: DbState| (!crashes() || rec_to(d, recover(old(self).sqlite.st@))) ==> #[trigger] (old(self).sqlite.allowed@)(d),
    ensures
        r is Ok ==> final(self).sqlite.st@ == recover(old(self).sqlite.st@),
        recover(final(self).sqlite.st@) == recover(old(self).sqlite.st@),
        final(self).sqlite.allowed@ == old(self).sqlite.allowed@,
        final(self).next_layer == old(self).next_layer, final(self).dirty_changes == old(self).dirty_changes,
//@end
    proof { if __result is Ok { assert(self.sqlite.st@ =~= recover(old(self).sqlite.st@)); } assert(recover(self.sqlite.st@) =~= recover(old(self).sqlite.st@)); }
//@endfn

//@fn st Storage::last_layer
//@contract
    requires self.wf()
    ensures r matches Ok(p) ==> p.0 == self.n() - 1 && (roots() ==> p.1.0@ == root(self.n() - 1, self.base())),
//@endfn

//@fn st Storage::assert_layer_id_is_complete
//@contract
    ensures layer_id < self.next_layer.id
//@endfn

//@fn st Storage::has_uncommitted_changes
//@contract
    ensures r == (self.dirty_changes@.dom().len() != 0)
//@endfn

//@fn st Storage::get
//@contract
    requires self.wf_db()
    ensures
        (r matches Ok(v) && layer_id is None) ==> opt(r->Ok_0) == look(self.current(), blake3(key@)),
        (r is Ok && layer_id is Some) ==> layer_id->Some_0 < self.n() && opt(r->Ok_0) == look(contents(self.sqlite.st@, layer_id->Some_0 as int), blake3(key@)),
//@endfn

//@fn st Storage::get_by_hash
//@contract
    requires self.wf_db()
    ensures
        (r is Ok && layer_id is None) ==> opt(r->Ok_0) == look(self.current(), hash.0@),
        (r is Ok && layer_id is Some) ==> layer_id->Some_0 < self.n() && opt(r->Ok_0) == look(contents(self.sqlite.st@, layer_id->Some_0 as int), hash.0@),
//@begin
    proof {
        lookup(self.sqlite.st@, self.n(), self.n() - 1, hash.0@);
        if let Some(l) = layer_id { if l < self.n() { lookup(self.sqlite.st@, self.n(), l as int, hash.0@); } }
    }
//@endfn

//@fn st Storage::get_by_hash_historical
//@contract
    requires self.wf_db(), layer_id < self.n()
    ensures r matches Ok(v) ==> opt(v) == look(contents(self.sqlite.st@, layer_id as int), hash.0@),
//@begin
    proof { lookup(self.sqlite.st@, self.n(), layer_id as int, hash.0@); }
//@endfn

//@fn st Storage::upsert
//@contract
    ensures
        final(self).dirty_changes@ == old(self).dirty_changes@.insert(blake3(key@), value.bytes()),
        final(self).current() == old(self).current().insert(blake3(key@), value.bytes()),
        final(self).next_layer == old(self).next_layer, final(self).sqlite == old(self).sqlite,
//@endfn

//@fn st Storage::upsert_by_hash
//@contract
    ensures
        final(self).dirty_changes@ == old(self).dirty_changes@.insert(hash.0@, value.bytes()),
        final(self).current() == old(self).current().insert(hash.0@, value.bytes()),
        final(self).next_layer == old(self).next_layer, final(self).sqlite == old(self).sqlite,
//@end
    proof { assert(self.current() =~= old(self).current().insert(hash.0@, value.bytes())); }
//@endfn

//@fn st Storage::checkpoint
//@contract
    requires old(self).wf()
    ensures
        final(self).sqlite == old(self).sqlite, final(self).next_layer.id == old(self).next_layer.id,
        r is Ok ==> final(self).wf() && final(self).dirty_changes@ == Map::<Seq<u8>, Seq<u8>>::empty() && final(self).current() == old(self).current()
            && final(self).next_layer.changes@ == old(self).next_layer.changes@.union_prefer_right(old(self).dirty_changes@),
//@inv 0
    invariant
        old(self).wf(), self.sqlite == old(self).sqlite, self.next_layer.id == old(self).next_layer.id,
        self.dirty_changes@ == Map::<Seq<u8>, Seq<u8>>::empty(),
        roots() ==> fingerprint.0@ == xor(xor(fold(self.base()), fold(self.with_saved())), self.tick()),
        self.next_layer.changes@.union_prefer_right(__it0@) == old(self).next_layer.changes@.union_prefer_right(old(self).dirty_changes@),
    ensures __it0@.dom().len() == 0,
    decreases __it0@.dom().len()
//@top 0
    let ghost cur = self.with_saved();
    let ghost saved = self.next_layer.changes@;
    let ghost rem = __it0@;
    let ghost fp0 = fingerprint.0@;
    proof { assert(self.current() =~= self.with_saved()); }
//@bot 0
    proof {
        let k = change.0.0@; let v = change.1@;
        assert(self.with_saved() =~= cur.insert(k, v));
        fold_insert(cur, k, v);
        step(fold(self.base()), fold(cur), self.tick(), kv(k, cur[k]), kv(k, v));
        assert(self.next_layer.changes@.union_prefer_right(__it0@) =~= saved.union_prefer_right(rem));
    }
//@after 0
    proof {
        assert(__it0@ =~= Map::empty());
        assert(self.next_layer.changes@ =~= old(self).next_layer.changes@.union_prefer_right(old(self).dirty_changes@));
        assert(self.with_saved() =~= old(self).current());
    }
//@end
    proof { assert(self.current() =~= self.with_saved()); }
//@endfn

//@fn st Storage::commit
//@contract
    requires
        old(self).wf(), old(self).n() < 0x7fff_ffff_ffff_fffe,
        // crash points: whatever a crash leaves recovers to the layers before this commit, or to those after it
        forall|d: DbState| (!crashes() || rec_to(d, old(self).sqlite.st@) || rec_to(d, old(self).committed())) ==> #[trigger] (old(self).sqlite.allowed@)(d),
    ensures
        old(self).dirty_changes@.dom().len() != 0 ==> r is Err && final(self).same(old(self)),
        r matches Ok(p) ==> {
            &&& p.0 == old(self).n() && (roots() ==> p.1.0@ == root(old(self).n(), old(self).current()))
            &&& final(self).sqlite.st@ == old(self).committed()
            &&& final(self).next_layer.id == old(self).next_layer.id + 1
            &&& final(self).next_layer.changes@ == Map::<Seq<u8>, Seq<u8>>::empty() && final(self).dirty_changes@ == Map::<Seq<u8>, Seq<u8>>::empty()
            &&& final(self).wf() && final(self).current() == old(self).current()
            &&& forall|l: int| l < old(self).n() ==> #[trigger] contents(final(self).sqlite.st@, l) == contents(old(self).sqlite.st@, l)
        },
//@begin
    let ghost d0 = self.sqlite.st@;
    let ghost n = self.n();
    let ghost saved = self.next_layer.changes@;
    let ghost fpn = fpv(root(n, self.with_saved()));
    proof { self.commit_lemma(); }
//@before 0
    proof {
        assert(saved.union_prefer_right(Map::empty()) =~= saved);
        assert(rows(inserts@, 0) =~= Map::empty());
    }
//@inv 0
    invariant
        self.sqlite.st@ == d0.insert(n, LayerRow { fp: fpn, complete: 0, vals: Map::empty() }), self.sqlite.allowed@ == old(self).sqlite.allowed@,
        n == layer_id, self.next_layer.id == layer_id, self.dirty_changes@.dom().len() == 0,
        self.next_layer.changes@ == Map::<Seq<u8>, Seq<u8>>::empty(),
        fpv(fingerprint.0@) == fpn,
        rows(inserts@, inserts@.len()).union_prefer_right(__it0@) == saved,
        forall|k: Seq<u8>| rows(inserts@, inserts@.len()).contains_key(k) ==> !(#[trigger] __it0@.contains_key(k)),
        forall|i: int| 0 <= i < inserts@.len() ==> (#[trigger] inserts@[i]).layer@ == n && rows(inserts@, inserts@.len()).contains_key(inserts@[i].key@),
        forall|i: int, j: int| 0 <= i < j < inserts@.len() ==> inserts@[i].key@ != inserts@[j].key@,
    ensures __it0@.dom().len() == 0,
    decreases __it0@.dom().len()
//@top 0
    let ghost pre = inserts@;
    let ghost rem = __it0@;
//@bot 0
    proof {
        rows_prefix(inserts@, pre, pre.len());
        assert(inserts@.len() == pre.len() + 1);
        let m = rows(inserts@, inserts@.len());
        assert(m == rows(pre, pre.len()).insert(inserts@[pre.len() as int].key@, inserts@[pre.len() as int].value@));
        assert(m.union_prefer_right(__it0@) =~= rows(pre, pre.len()).union_prefer_right(rem));
    }
//@after 0
    proof {
        assert(__it0@ =~= Map::empty());
        assert(rows(inserts@, inserts@.len()) =~= saved);
        let d1 = d0.insert(n, LayerRow { fp: fpn, complete: 0, vals: Map::empty() });
        assert forall|e: DbState| #[trigger] partial(d1, e, n, saved) implies (self.sqlite.allowed@)(e) by {
            assert(!crashes() || rec_to(e, d0));
        }
        let d2 = d0.insert(n, LayerRow { fp: fpn, complete: 0, vals: saved });
        if inserts@.len() == 0 { assert(saved =~= Map::empty()); assert(d2 =~= d1); }
        assert(d1.insert(n, LayerRow { fp: fpn, complete: 0, vals: saved }) =~= d2);
    }
//@end
    proof { assert(self.sqlite.st@ =~= old(self).committed()); self.after_commit(old(self)); }
//@endfn

//@fn st Storage::genesis_fingerprint
//@contract
    requires self.wf()
    ensures
        r matches Ok(Some(s)) ==> self.n() > -1 && (roots() ==> s.0@ == root(-1, contents(self.sqlite.st@, -1))),
        r matches Ok(None) ==> self.n() == -1,
//@begin
    proof { assert(self.sqlite.st@.contains_key(-1) <==> self.n() > -1); }
//@endfn

//@fn st Storage::insert_layer mut
//@contract
    requires !old(self).sqlite.st@.contains_key(id as int) ==> (old(self).sqlite.allowed@)(old(self).sqlite.st@.insert(id as int, LayerRow { fp: fpv(fingerprint.0@), complete: if complete { 1 } else { 0 }, vals: Map::empty() })),
    ensures
        r is Ok ==> !old(self).sqlite.st@.contains_key(id as int) && final(self).sqlite.st@ == old(self).sqlite.st@.insert(id as int, LayerRow { fp: fpv(fingerprint.0@), complete: if complete { 1 } else { 0 }, vals: Map::empty() }),
        r is Err ==> final(self).sqlite.st@ == old(self).sqlite.st@,
        final(self).sqlite.allowed@ == old(self).sqlite.allowed@,
        final(self).next_layer == old(self).next_layer, final(self).dirty_changes == old(self).dirty_changes,
//@endfn

//@fn st Storage::layer_fingerprint
//@contract
    ensures r matches Ok(s) ==> self.sqlite.st@.contains_key(layer_id as int) && fpv(s.0@) == self.sqlite.st@[layer_id as int].fp
        && self.sqlite.st@[layer_id as int].complete == if complete { 1int } else { 0int },
//@endfn

//@fn st Storage::rewind
//@contract
    requires
        old(self).wf(), layer_id >= -1,
        // one statement: a crash leaves all layers or exactly those up to layer_id
        forall|d: DbState| (!crashes() || rec_to(d, old(self).sqlite.st@) || rec_to(d, upto(old(self).sqlite.st@, layer_id as int))) ==> #[trigger] (old(self).sqlite.allowed@)(d),
    ensures
        old(self).dirty_changes@.dom().len() != 0 ==> r is Err && final(self).same(old(self)),
        r is Ok ==> {
            &&& layer_id < old(self).n()
            &&& final(self).sqlite.st@ == upto(old(self).sqlite.st@, layer_id as int)
            &&& final(self).n() == layer_id + 1
            &&& final(self).next_layer.changes@ == Map::<Seq<u8>, Seq<u8>>::empty() && final(self).dirty_changes@ == Map::<Seq<u8>, Seq<u8>>::empty()
            &&& final(self).wf() && final(self).current() == contents(old(self).sqlite.st@, layer_id as int)
            &&& forall|l: int| l <= layer_id ==> #[trigger] contents(final(self).sqlite.st@, l) == contents(old(self).sqlite.st@, l)
        },
//@end
    proof { assert(self.sqlite.st@ =~= upto(old(self).sqlite.st@, layer_id as int)); if layer_id < old(self).n() { after_rewind(old(self).sqlite.st@, self, layer_id as int); } }
//@endfn

//@fn st Storage::rollback
//@contract
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).sqlite == old(self).sqlite, final(self).next_layer == old(self).next_layer,
        r is Ok ==> final(self).dirty_changes@ == Map::<Seq<u8>, Seq<u8>>::empty() && final(self).current() == old(self).with_saved(),
//@end
    proof { assert(self.current() =~= old(self).with_saved()); }
//@endfn

//@fn st Storage::last_layer_id
//@contract
    requires self.wf_db()
    ensures r matches Ok(Some(l)) ==> l == self.n() - 1, r matches Ok(None) ==> false
//@begin
    proof { assert(self.sqlite.st@.contains_key(self.n() - 1)); }
//@endfn

//@fn st Storage::new_with_pool
//@local sqlite : Pool ==> mut sqlite : Pool
//@contract
    requires
        // a database that is fresh, or was left by the operations above, possibly in the middle of one
        recover(sqlite.st@) == Map::<int, LayerRow>::empty() || exists|n: int| n < 0x7fff_ffff_ffff_ffff && #[trigger] chain(recover(sqlite.st@), n),
        forall|d: DbState| (!crashes() || rec_to(d, recover(sqlite.st@)) || (recover(sqlite.st@) == Map::<int, LayerRow>::empty() && rec_to(d, fresh()))) ==> #[trigger] (sqlite.allowed@)(d),
    ensures
        r matches Ok(s) ==> {
            &&& s.wf()
            &&& s.sqlite.st@ == if recover(sqlite.st@) == Map::<int, LayerRow>::empty() { fresh() } else { recover(sqlite.st@) }
            &&& s.next_layer.changes@ == Map::<Seq<u8>, Seq<u8>>::empty() && s.dirty_changes@ == Map::<Seq<u8>, Seq<u8>>::empty()
        },
//@begin
    let ghost d0 = sqlite.st@;
    proof { assert(recover(recover(d0)) =~= recover(d0)); assert(recover(fresh()) =~= fresh()); fresh_lemma(); }
//@end
    proof { if __result is Ok { opened(d0, &__result->Ok_0); } }
//@endfn
}

//@fn st max_layer_id
//@contract
    ensures
        r matches Ok(Some(l)) ==> pool.st@.contains_key(l as int) && forall|i: int| pool.st@.contains_key(i) ==> i <= l,
        r matches Ok(None) ==> pool.st@ =~= Map::<int, LayerRow>::empty(),
//@endfn

//@fn st hash_key_value_pair
//@contract
    ensures r.0@ == kv(key_hash.0@, value@)
//@endfn

//@fn st xor_fingerprint
//@contract
    ensures final(sig_1).0@ == xor(old(sig_1).0@, sig_2.0@)
//@inv 0
    invariant __i0 <= 32,
        forall|j: int| 0 <= j < __i0 ==> sig_1.0@[j] == old(sig_1).0@[j] ^ sig_2.0@[j],
        forall|j: int| __i0 <= j < 32 ==> sig_1.0@[j] == old(sig_1).0@[j],
    decreases 32 - __i0
//@end
    proof { assert(sig_1.0@ =~= xor(old(sig_1).0@, sig_2.0@)); }
//@endfn

// ---------------------------------------------------------------- lemmas
pub open spec fn upto(d: DbState, l: int) -> DbState { d.restrict(d.dom().filter(|i: int| i <= l)) }
pub open spec fn fresh() -> DbState { Map::<int, LayerRow>::empty().insert(-2, LayerRow { fp: fpv(zeros()), complete: 1, vals: Map::empty() }) }

proof fn rows_prefix(a: Seq<PendingInsert>, b: Seq<PendingInsert>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures rows(a, n) == rows(b, n)
    decreases n
{ if n > 0 { rows_prefix(a, b, (n - 1) as nat); } }

/// ((b ^ c) ^ t) ^ o ^ v == (b ^ ((c ^ o) ^ v)) ^ t, and the same without o
proof fn step(b: Seq<u8>, c: Seq<u8>, t: Seq<u8>, o: Seq<u8>, v: Seq<u8>)
    ensures
        xor(xor(xor(xor(b, c), t), o), v) == xor(xor(b, xor(xor(c, o), v)), t),
        xor(xor(xor(b, c), t), v) == xor(xor(b, xor(c, v)), t),
{
    assert forall|b: u8, c: u8, t: u8, o: u8, v: u8| ((((b ^ c) ^ t) ^ o) ^ v) == ((b ^ ((c ^ o) ^ v)) ^ t) by { assert(((((b ^ c) ^ t) ^ o) ^ v) == ((b ^ ((c ^ o) ^ v)) ^ t)) by (bit_vector); }
    assert forall|b: u8, c: u8, t: u8, v: u8| (((b ^ c) ^ t) ^ v) == ((b ^ (c ^ v)) ^ t) by { assert((((b ^ c) ^ t) ^ v) == ((b ^ (c ^ v)) ^ t)) by (bit_vector); }
    assert(xor(xor(xor(xor(b, c), t), o), v) =~= xor(xor(b, xor(xor(c, o), v)), t));
    assert(xor(xor(xor(b, c), t), v) =~= xor(xor(b, xor(c, v)), t));
}

/// What a lookup for k among the rows at or below l finds.
proof fn lookup(d: DbState, n: int, l: int, k: Seq<u8>)
    requires chain(d, n), l < n
    ensures
        forall|j: int| (#[trigger] d.contains_key(j)) && j <= l && d[j].vals.contains_key(k) && (forall|i: int| d.contains_key(i) && i <= l && #[trigger] d[i].vals.contains_key(k) ==> !(i > j))
            ==> look(contents(d, l), k) == Some(d[j].vals[k]),
        (forall|i: int| d.contains_key(i) && i <= l ==> !(#[trigger] d[i].vals.contains_key(k))) ==> look(contents(d, l), k) is None,
{
    assert forall|j: int| (#[trigger] d.contains_key(j)) && j <= l && d[j].vals.contains_key(k) && (forall|i: int| d.contains_key(i) && i <= l && #[trigger] d[i].vals.contains_key(k) ==> !(i > j))
        implies look(contents(d, l), k) == Some(d[j].vals[k]) by { contents_hit(d, l, j, k); }
    if forall|i: int| d.contains_key(i) && i <= l ==> !(#[trigger] d[i].vals.contains_key(k)) { contents_miss(d, l, k); }
}

proof fn fresh_lemma()
    ensures chain(fresh(), -1), contents(fresh(), -2) == Map::<Seq<u8>, Seq<u8>>::empty()
{
    assert(contents(fresh(), -3) == Map::<Seq<u8>, Seq<u8>>::empty());
    assert(contents(fresh(), -2) =~= Map::empty());
    assert(fold(Map::empty()) == zeros());
    assert(root(-2, contents(fresh(), -2)) =~= zeros()) by { xor_algebra(zeros(), zeros(), zeros()); }
}

impl Storage {
    proof fn commit_lemma(&self)
        requires self.wf()
        ensures
            self.current() == self.with_saved() || self.dirty_changes@.dom().len() != 0,
            self.n() - 1 >= -2,
            roots() ==> xor(self.sqlite.st@[self.n() - 1].fp, self.next_layer.changes_xor_fingerprint.0@) == root(self.n(), self.with_saved()),
    {
        if self.dirty_changes@.dom().len() == 0 { assert(self.dirty_changes@ =~= Map::empty()); assert(self.current() =~= self.with_saved()); }
        let d = self.sqlite.st@; let n = self.n();
        let (b, c, t, p) = (fold(self.base()), fold(self.with_saved()), self.tick(), parity(n - 1));
        fold_len(self.base()); fold_len(self.with_saved()); parity_len(n - 1);
        assert forall|b: u8, c: u8, t: u8, p: u8| ((b ^ p) ^ ((b ^ c) ^ t)) == (c ^ (p ^ t)) by { assert(((b ^ p) ^ ((b ^ c) ^ t)) == (c ^ (p ^ t))) by (bit_vector); }
        assert(xor(xor(b, p), xor(xor(b, c), t)) =~= xor(c, xor(p, t)));
        assert(xor(p, t) == parity(n)) by { if n == -1 { xor_algebra(zeros(), zeros(), zeros()); } }
    }
    proof fn after_commit(&self, o: &Storage)
        requires o.wf(), self.sqlite.st@ == o.committed(), self.next_layer.id == o.next_layer.id + 1, o.n() < 0x7fff_ffff_ffff_fffe,
            self.next_layer.changes@ == Map::<Seq<u8>, Seq<u8>>::empty(), self.dirty_changes@.dom().len() == 0, o.dirty_changes@.dom().len() == 0,
            roots() ==> self.next_layer.changes_xor_fingerprint.0@ == ones(),
        ensures self.wf(), self.current() == o.current(), self.dirty_changes@ == Map::<Seq<u8>, Seq<u8>>::empty(),
            forall|l: int| l < o.n() ==> #[trigger] contents(self.sqlite.st@, l) == contents(o.sqlite.st@, l),
    {
        let (d, e, n) = (o.sqlite.st@, self.sqlite.st@, o.n());
        assert forall|l: int| l < n implies #[trigger] contents(e, l) == contents(d, l) by { contents_below(e, d, l); }
        assert(contents(e, n - 1) == contents(d, n - 1));
        assert(contents(e, n) =~= o.with_saved());
        assert(self.with_saved() =~= self.base());
        assert(o.dirty_changes@ =~= Map::empty()); assert(self.dirty_changes@ =~= Map::empty());
        assert(self.current() =~= o.current());
        let b = fold(self.base());
        fold_len(self.base());
        xor_algebra(b, b, ones()); xor_algebra(ones(), ones(), ones());
    }
}
proof fn after_rewind(d: DbState, s: &Storage, l: int)
    requires exists|n: int| #[trigger] chain(d, n) && l < n && n < 0x7fff_ffff_ffff_ffff, l >= -1,
        s.sqlite.st@ == upto(d, l), s.n() == l + 1, s.next_layer.changes@ == Map::<Seq<u8>, Seq<u8>>::empty(), s.dirty_changes@.dom().len() == 0,
        roots() ==> s.next_layer.changes_xor_fingerprint.0@ == ones(),
    ensures s.wf(), s.current() == contents(d, l), s.dirty_changes@ == Map::<Seq<u8>, Seq<u8>>::empty(),
        forall|i: int| i <= l ==> #[trigger] contents(s.sqlite.st@, i) == contents(d, i),
{
    let e = upto(d, l);
    assert forall|i: int| i <= l implies #[trigger] contents(e, i) == contents(d, i) by { contents_below(e, d, i); }
    assert(s.dirty_changes@ =~= Map::empty());
    assert(s.with_saved() =~= s.base());
    assert(s.current() =~= s.base());
    fold_len(s.base());
    xor_algebra(fold(s.base()), fold(s.base()), ones()); xor_algebra(ones(), ones(), ones());
}
proof fn opened(d0: DbState, s: &Storage)
    requires
        recover(d0) == Map::<int, LayerRow>::empty() || exists|n: int| n < 0x7fff_ffff_ffff_ffff && #[trigger] chain(recover(d0), n),
        s.sqlite.st@ == if recover(d0) == Map::<int, LayerRow>::empty() { fresh() } else { recover(d0) },
        s.n() == -1 || s.sqlite.st@.contains_key(s.n() - 1),
        s.n() == -1 && roots() ==> s.next_layer.changes_xor_fingerprint.0@ == zeros(),
        s.n() != -1 && roots() ==> s.next_layer.changes_xor_fingerprint.0@ == ones(),
        forall|i: int| #[trigger] s.sqlite.st@.contains_key(i) ==> i < s.n(),
        s.next_layer.changes@ == Map::<Seq<u8>, Seq<u8>>::empty(), s.dirty_changes@ == Map::<Seq<u8>, Seq<u8>>::empty(),
    ensures s.wf()
{
    fresh_lemma();
    let d = s.sqlite.st@;
    if recover(d0) == Map::<int, LayerRow>::empty() { assert(chain(d, -1)); assert(d.contains_key(-2)); }
    let n = choose|n: int| n < 0x7fff_ffff_ffff_ffff && #[trigger] chain(d, n);
    assert(d.contains_key(n - 1));
    assert(d.contains_key(s.n() - 1) || s.n() == -1);
    assert(n == s.n());
    assert(s.with_saved() =~= s.base());
    fold_len(s.base());
    xor_algebra(fold(s.base()), fold(s.base()), ones()); xor_algebra(ones(), ones(), ones()); xor_algebra(zeros(), zeros(), zeros());
}
}
fn main() {}
