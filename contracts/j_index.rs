// ---------------------------------------------------------------------------------------------
// `std::borrow::Borrow` cannot carry a contract; the extractor replaces it by this trait.
// (assumed about a caller's own Borrow implementation: it always returns the same index)
// ---------------------------------------------------------------------------------------------
pub trait VxBorrow<T> {
    spec fn vx_b(&self) -> T;
    fn vx_borrow(&self) -> (r: &T)
        ensures *r == self.vx_b(),
    ;
}
impl<T> VxBorrow<T> for T {
    open spec fn vx_b(&self) -> T { *self }
    fn vx_borrow(&self) -> (r: &T) { self }
}
impl<'a, T> VxBorrow<T> for &'a T {
    open spec fn vx_b(&self) -> T { **self }
    fn vx_borrow(&self) -> (r: &T) { *self }
}
// ---------------------------------------------------------------------------------------------
// std::collections::HashMap, with keys compared by their content (assumed: Hash and Eq of the key
// types agree with content equality; for bit-vectors Eq is verified under C12)
// ---------------------------------------------------------------------------------------------
pub trait VxKey {
    type KV;
    spec fn kv(&self) -> Self::KV;
}
impl VxKey for u32 { type KV = u32; open spec fn kv(&self) -> u32 { *self } }
impl VxKey for u64 { type KV = u64; open spec fn kv(&self) -> u64 { *self } }
impl VxKey for [u64] { type KV = Seq<u64>; open spec fn kv(&self) -> Seq<u64> { self@ } }
impl VxKey for Box<[u64]> { type KV = Seq<u64>; open spec fn kv(&self) -> Seq<u64> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VxMap<K: VxKey, V> { k: Option<K>, v: Option<V> }
impl<K: VxKey, V> View for VxMap<K, V> {
    type V = Map<K::KV, V>;
    uninterp spec fn view(&self) -> Map<K::KV, V>;
}
impl<K: VxKey, V> VxMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K::KV, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VxKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(q.kv()) && *v == self@[q.kv()], None => !self@.contains_key(q.kv()) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v),
            match r { Some(o) => old(self)@.contains_key(k.kv()) && o == old(self)@[k.kv()], None => !old(self)@.contains_key(k.kv()) },
    { unimplemented!() }
    /// (assumed: the allocation of a hash table is limited to isize::MAX bytes, more than one per entry)
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(), r <= 0x3fff_ffff_ffff_ffff,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VxKey<KV = K::KV> + ?Sized>(&mut self, q: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(q.kv()),
            match r { Some(o) => old(self)@.contains_key(q.kv()) && o == old(self)@[q.kv()], None => !old(self)@.contains_key(q.kv()) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Map::<K::KV, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VxKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: bool)
        ensures r == self@.contains_key(q.kv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ == Map::<K::KV, V>::empty()),
    { unimplemented!() }
    /// `map.iter()`
    #[verifier::external_body]
    pub fn iter(&self) -> (r: VxMapIter<'_, K, V>)
        ensures ent_of(self@, ent_view(r@)),
    { unimplemented!() }
    /// all of `map.iter()`
    #[verifier::external_body]
    pub fn vx_entries(&self) -> (r: Vec<(&K, &V)>)
        ensures ent_of(self@, ent_view(r@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: VxEntry<'_, K, V>)
        ensures r.m@ == old(self)@, r.k == k, final(self)@ == final(r.m)@,
    { unimplemented!() }
}
/// the content of a list of entries
pub open spec fn ent_view<'a, K: VxKey, V>(s: Seq<(&'a K, &'a V)>) -> Seq<(K::KV, V)> { Seq::new(s.len(), |i: int| (s[i].0.kv(), *s[i].1)) }
/// the list holds every entry of the map once
pub open spec fn ent_of<KV, V>(m: Map<KV, V>, s: Seq<(KV, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: KV| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VxMapIter<'a, K: VxKey, V> { k: Option<&'a K>, v: Option<&'a V> }
impl<'a, K: VxKey, V> View for VxMapIter<'a, K, V> {
    type V = Seq<(&'a K, &'a V)>;
    uninterp spec fn view(&self) -> Seq<(&'a K, &'a V)>;
}
impl<'a, K: VxKey, V> VxMapIter<'a, K, V> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures match r {
            Some(e) => old(self)@.len() > 0 && e == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        },
    { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxEntry<'a, K: VxKey, V> { pub m: &'a mut VxMap<K, V>, pub k: K }
impl<'a, K: VxKey, V> VxEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures
            *r == if old(self.m)@.contains_key(self.k.kv()) { old(self.m)@[self.k.kv()] } else { v },
            final(self.m)@ == old(self.m)@.insert(self.k.kv(), *final(r)), final(self.m)@.contains_key(self.k.kv()),
    { unimplemented!() }
}
/// a copy holds copies of the values under keys of the same content
impl<K: VxKey, V: VxKey> Clone for VxMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: VxMap<K, V>)
        ensures map_same(*self, r),
    { unimplemented!() }
}
/// content of a value, for the comparison of maps
pub open spec fn map_same<K: VxKey, V: VxKey>(a: VxMap<K, V>, b: VxMap<K, V>) -> bool {
    forall|k: K::KV| #![trigger a@.contains_key(k)] #![trigger b@.contains_key(k)]
        a@.contains_key(k) == b@.contains_key(k) && (a@.contains_key(k) ==> a@[k].kv() == b@[k].kv())
}
impl<K: VxKey, V: VxKey + PartialEq> vstd::std_specs::cmp::PartialEqSpecImpl for VxMap<K, V> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VxMap<K, V>) -> bool { map_same(*self, *o) }
}
impl<K: VxKey, V: VxKey + PartialEq> PartialEq for VxMap<K, V> {
    #[verifier::external_body]
    fn eq(&self, o: &VxMap<K, V>) -> (r: bool) { unimplemented!() }
}
/// `x.into_iter()`, collected
pub trait VxIntoVec<T>: Sized {
    spec fn vx_iv(self, r: Seq<T>) -> bool;
    fn vx_into_vec(self) -> (r: Vec<T>)
        ensures self.vx_iv(r@),
    ;
}
impl<T, const N: usize> VxIntoVec<T> for [T; N] {
    open spec fn vx_iv(self, r: Seq<T>) -> bool { r == self@ }
    #[verifier::external_body]
    fn vx_into_vec(self) -> (r: Vec<T>) { unimplemented!() }
}
impl<T> VxIntoVec<T> for Vec<T> {
    open spec fn vx_iv(self, r: Seq<T>) -> bool { r == self@ }
    fn vx_into_vec(self) -> (r: Vec<T>) { self }
}
impl<K: VxKey, V> VxIntoVec<(K, V)> for VxMap<K, V> {
    open spec fn vx_iv(self, r: Seq<(K, V)>) -> bool { ent_of(self@, Seq::new(r.len(), |i: int| (r[i].0.kv(), r[i].1))) }
    #[verifier::external_body]
    fn vx_into_vec(self) -> (r: Vec<(K, V)>) { unimplemented!() }
}
pub fn vx_take<T>(v: Vec<T>, i: usize) -> (r: T)
    requires i < v@.len(),
    ensures r == v@[i as int],
{
    let mut v = v;
    v.swap_remove(i)
}
/// `Box::<[u64]>::from(&[u64])`
#[verifier::external_body]
pub fn vx_box_from(s: &[u64]) -> (r: Box<[u64]>)
    ensures r@ == s@,
{ unimplemented!() }
