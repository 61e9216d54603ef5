//@ module bv::owned
//@ mod bv::owned
broadcast use group_wbit;
impl VxView for BitVecValue {
    type V = (u32, Seq<u64>);
    open spec fn vw(&self) -> (u32, Seq<u64>) { (self.width, self.words@) }
}
impl VxKey for BitVecValue {
    type KV = (u32, Seq<u64>);
    open spec fn kv(&self) -> (u32, Seq<u64>) { (self.width, self.words@) }
}
pub open spec fn bool_words(v: bool) -> Seq<u64> { if v { seq![1u64] } else { seq![0u64] } }
/// `==` on bit-vectors: the extracted function (whose debug assertion fails on malformed operands)
impl<V: BitVecOps> vstd::std_specs::cmp::PartialEqSpecImpl<V> for BitVecValue {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &V) -> bool { self.width == o.sw() && self.words@ == o.ss() }
}
impl<V: BitVecOps> PartialEq<V> for BitVecValue {
    fn eq(&self, o: &V) -> (r: bool) {
        if self.words.len() != o.words().len() { return false; }
        vx_impl_PartialEq_V__for_BitVecValue_eq(self, o)
    }
}
impl Clone for BitVecValue {
    fn clone(&self) -> (r: BitVecValue) ensures r.width == self.width, r.words@ == self.words@ { vx_impl_Clone_for_BitVecValue_clone(self) }
}
impl VxEq for BitVecValue {
    open spec fn vx_eq_req(&self, o: &Self) -> bool { self.width == o.width ==> self.words@.len() == o.words@.len() }
    open spec fn vx_eq_is(&self, o: &Self) -> bool { self.width == o.width && self.words@ == o.words@ }
    fn vx_eq(&self, o: &Self) -> (r: bool) { vx_impl_PartialEq_V__for_BitVecValue_eq(self, o) }
}
/// equal values feed the same to a hasher
pub proof fn equal_hash(a: BitVecValue, b: BitVecValue)
    requires a.vx_eq_is(&b),
    ensures val_hash(a) == val_hash(b),
{ }
pub open spec fn val_hash(a: BitVecValue) -> Seq<int> { hash_u32(a.width) + hash_words(a.words@) }
//@ fn impl Clone for BitVecValue::clone
//@ props C12
//@ ensures
r.width == self_.width, r.words@ == self_.words@,
//@ ghost end
proof { assert(vx_ret.words@ =~= self_.words@); }
//@ rename-path Hasher => VxHasher
//@ rename-path std::hash::Hasher => VxHasher
//@ rename-method hash/1 => vx_hash
//@ fn impl Hash for BitVecValue::hash
//@ props C12
//@ ensures
final(state).log() == old(state).log() + val_hash(*self_),
//@ ghost end
proof { assert(state.log() =~= old(state).log() + val_hash(*self_)); }
//@ fn BitVecValue::new
//@ props C01
//@ ensures
r.width == width, r.words@ == words@,
//@ fn value_vec_zeros
//@ props C01
//@ ensures
r@.len() == nw(width as int), forall|i: int| 0 <= i < r@.len() ==> r@[i] == 0, wfw(r@, width as int), val(r@) == 0,
//@ ghost end
proof { val_zero(vx_ret@); }
//@ impl impl BitVecOps for BitVecValue
    open spec fn sw(&self) -> u32 { self.width }
    open spec fn ss(&self) -> Seq<u64> { self.words@ }
//@ fn BitVecValue::zero
//@ props C07 C01
//@ ensures
r.width == width, wfw(r.words@, width as int), val(r.words@) == 0, forall|i: int| 0 <= i < r.words@.len() ==> #[trigger] r.words@[i] == 0,
//@ fn BitVecValue::ones
//@ props C07 C01
//@ requires
width >= 1,
//@ ensures
r.width == width, wfw(r.words@, width as int), val(r.words@) == p2(width as int) - 1, forall|k: int| #[trigger] sbit(r.words@, k) == (0 <= k < width),
//@ fn BitVecValue::from_u64
//@ props C07 C01
//@ requires
value < p2(width as int),
//@ ensures
r.width == width, wfw(r.words@, width as int), val(r.words@) == value,
//@ fn BitVecValue::from_i64
//@ props C07 C01
//@ requires
width >= 1, -p2(width - 1) <= value < p2(width - 1),
//@ ensures
r.width == width, wfw(r.words@, width as int), sval(r.words@, width as int) == value,
//@ fn BitVecValue::tru
//@ props C07 C01
//@ ensures
r.width == 1, wfw(r.words@, 1), val(r.words@) == 1,
//@ ghost start
proof { p2_64(); }
//@ fn BitVecValue::fals
//@ props C07 C01
//@ ensures
r.width == 1, wfw(r.words@, 1), val(r.words@) == 0,
//@ ghost start
proof { p2_64(); }
//@ fn BitVecValue::from_bool
//@ props C07 C01
//@ ensures
r.width == 1, wfw(r.words@, 1), val(r.words@) == if value { 1int } else { 0int }, r.words@ == bool_words(value),
//@ ghost start
proof { p2_64(); }
//@ ghost end
proof {
    val_one_word(vx_ret.words@);
    assert(vx_ret.words@ =~= bool_words(value));
}
//@ impl impl From<bool> for BitVecValue
    open spec fn vx_from_req(v: bool) -> bool { true }
    open spec fn vx_from_spec(v: bool) -> (u32, Seq<u64>) { (1, bool_words(v)) }
//@ impl impl From<BitVecValueRef> for BitVecValue
    open spec fn vx_from_req(v: BitVecValueRef<'a>) -> bool { true }
    open spec fn vx_from_spec(v: BitVecValueRef<'a>) -> (u32, Seq<u64>) { (v.width, v.words@) }
//@ fn impl PartialEq<V> for BitVecValue::eq
//@ props C12
//@ requires
self_.width == other.sw() ==> self_.words@.len() == other.ss().len(),
//@ ensures
r == (self_.width == other.sw() && self_.words@ == other.ss()),
self_.width == other.sw() ==> r == (val(self_.words@) == val(other.ss())),
//@ ghost start
proof { if self_.width == other.sw() && val(self_.words@) == val(other.ss()) { val_inj(self_.words@, other.ss()); } }
//@ ghost end
proof { assert(vx_ret == (self_.width == other.sw() && other.ss() =~= self_.words@)); }
//@ fn impl std::ops::Add<&V> for &BitVecValue::add
//@ props C02
//@ requires
self_.width >= 1, wfw(self_.words@, self_.width as int), rhs.sw() == self_.width, wfw(rhs.ss(), self_.width as int),
//@ ensures
r.width == self_.width, wfw(r.words@, r.width as int), val(r.words@) == (val(self_.words@) + val(rhs.ss())) % p2(self_.width as int),
//@ fn impl std::ops::Sub<&V> for &BitVecValue::sub
//@ props C02
//@ requires
self_.width >= 1, wfw(self_.words@, self_.width as int), rhs.sw() == self_.width, wfw(rhs.ss(), self_.width as int),
//@ ensures
r.width == self_.width, wfw(r.words@, r.width as int), val(r.words@) == (val(self_.words@) - val(rhs.ss())) % p2(self_.width as int),
//@ impl impl BitVecMutOps for BitVecValue
    #[verifier::prophetic]
    open spec fn sfin(&self) -> Seq<u64> { Seq::empty() }
