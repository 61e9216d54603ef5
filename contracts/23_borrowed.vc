//@ module bv::borrowed
//@ mod bv::borrowed
broadcast use group_wbit;
impl<'a> VxView for BitVecValueRef<'a> {
    type V = (u32, Seq<u64>);
    open spec fn vw(&self) -> (u32, Seq<u64>) { (self.width, self.words@) }
}
impl<'a> VxView for BitVecValueMutRef<'a> {
    type V = (u32, Seq<u64>);
    open spec fn vw(&self) -> (u32, Seq<u64>) { (self.width, self.words@) }
}
// `impl<T> From<T> for T` of the standard library
impl<'a> VxFrom<BitVecValueRef<'a>> for BitVecValueRef<'a> {
    open spec fn vx_from_req(v: BitVecValueRef<'a>) -> bool { true }
    open spec fn vx_from_spec(v: BitVecValueRef<'a>) -> (u32, Seq<u64>) { v.vw() }
    fn vx_from(v: BitVecValueRef<'a>) -> (r: Self) ensures r == v { v }
}
//@ fn impl Hash for BitVecValueRef::hash
//@ props C12
//@ ensures
final(state).log() == old(state).log() + (hash_u32(self_.width) + hash_words(self_.words@)),
//@ ghost end
proof { assert(state.log() =~= old(state).log() + (hash_u32(self_.width) + hash_words(self_.words@))); }
//@ fn BitVecValueRef::new
//@ props C12 C14
//@ ensures
r.width == width, r.words@ == words@,
//@ fn BitVecValueMutRef::new
//@ props C22 C14
//@ ensures
r.width == width, r.words@ == old(words)@, final(r.words)@ == final(words)@,
//@ impl impl From<&BitVecValue> for BitVecValueRef
    open spec fn vx_from_req(v: &'a BitVecValue) -> bool { true }
    open spec fn vx_from_spec(v: &'a BitVecValue) -> (u32, Seq<u64>) { (v.width, v.words@) }
//@ impl impl From<&mut BitVecValue> for BitVecValueMutRef
    open spec fn vx_from_req(v: &'a mut BitVecValue) -> bool { true }
    open spec fn vx_from_spec(v: &'a mut BitVecValue) -> (u32, Seq<u64>) { (v.width, v.words@) }
//@ impl impl BitVecOps for BitVecValueRef
    open spec fn sw(&self) -> u32 { self.width }
    open spec fn ss(&self) -> Seq<u64> { self.words@ }
//@ impl impl BitVecOps for BitVecValueMutRef
    open spec fn sw(&self) -> u32 { self.width }
    open spec fn ss(&self) -> Seq<u64> { self.words@ }
//@ fn impl PartialEq<O> for BitVecValueRef::eq
//@ props C12
//@ requires
wfw(self_.words@, self_.width as int), wfw(other.ss(), other.sw() as int),
//@ ensures
r == (self_.width == other.sw() && val(self_.words@) == val(other.ss())),
//@ ghost start
proof {
    if self_.width == other.sw() && val(self_.words@) == val(other.ss()) { val_inj(self_.words@, other.ss()); }
    assert((self_.words@ =~= other.ss()) == (self_.words@ == other.ss()));
}
//@ ghost end
proof { assert(self_.words@ =~= other.ss() ==> val(self_.words@) == val(other.ss())); }
//@ impl impl BitVecMutOps for BitVecValueMutRef
    #[verifier::prophetic]
    open spec fn sfin(&self) -> Seq<u64> { final(self.words)@ }
