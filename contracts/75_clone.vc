//@ module array::owned
//@ mod array::owned
/// same representation
pub open spec fn den_copy(a: DenseArrayImpl, b: DenseArrayImpl) -> bool {
    match (a, b) {
        (DenseArrayImpl::Bit(x), DenseArrayImpl::Bit(y)) => x.width == y.width && x.words@ == y.words@,
        (DenseArrayImpl::U8(x), DenseArrayImpl::U8(y)) => x@ == y@,
        (DenseArrayImpl::U64(x), DenseArrayImpl::U64(y)) => x@ == y@,
        (DenseArrayImpl::Big(x), DenseArrayImpl::Big(y)) => x@ == y@,
        _ => false,
    }
}
pub open spec fn sp_copy(a: SparseArrayImpl, b: SparseArrayImpl) -> bool {
    match (a, b) {
        (SparseArrayImpl::U64U64(y, m), SparseArrayImpl::U64U64(z, n)) => y == z && map_same(m, n),
        (SparseArrayImpl::U64Big(y, m), SparseArrayImpl::U64Big(z, n)) => y.kv() == z.kv() && map_same(m, n),
        (SparseArrayImpl::BigBig(y, m), SparseArrayImpl::BigBig(z, n)) => y.kv() == z.kv() && map_same(m, n),
        _ => false,
    }
}
impl Clone for DenseArrayImpl { fn clone(&self) -> (r: DenseArrayImpl) ensures den_copy(*self, r) { vx_impl_Clone_for_DenseArrayImpl_clone(self) } }
impl Clone for SparseArrayImpl { fn clone(&self) -> (r: SparseArrayImpl) ensures sp_copy(*self, r) { vx_impl_Clone_for_SparseArrayImpl_clone(self) } }
impl Clone for DenseArrayValue { fn clone(&self) -> (r: DenseArrayValue) ensures self.ainv() ==> arr_vw(&r) == arr_vw(self) { vx_impl_Clone_for_DenseArrayValue_clone(self) } }
impl Clone for SparseArrayValue { fn clone(&self) -> (r: SparseArrayValue) ensures self.ainv() ==> arr_vw(&r) == arr_vw(self), sp_default(r.data) == sp_default(self.data) { vx_impl_Clone_for_SparseArrayValue_clone(self) } }
impl Clone for ArrayImpl {
    fn clone(&self) -> (r: ArrayImpl)
        ensures arr_copy(*self, r),
    { vx_impl_Clone_for_ArrayImpl_clone(self) }
}
impl Clone for ArrayValue { fn clone(&self) -> (r: ArrayValue) ensures self.ainv() ==> arr_vw(&r) == arr_vw(self), arr_copy(self.data, r.data) { vx_impl_Clone_for_ArrayValue_clone(self) } }
pub open spec fn arr_copy(a: ArrayImpl, b: ArrayImpl) -> bool {
    match (a, b) {
        (ArrayImpl::Dense(x), ArrayImpl::Dense(y)) => x.ainv() ==> arr_vw(&x) == arr_vw(&y),
        (ArrayImpl::Sparse(x), ArrayImpl::Sparse(y)) => (x.ainv() ==> arr_vw(&x) == arr_vw(&y)) && sp_default(x.data) == sp_default(y.data),
        _ => false,
    }
}
//@ fn impl Clone for DenseArrayImpl::clone
//@ props C17
//@ ensures
den_copy(*self_, r),
//@ ghost end
proof {
    if vx_ret is U8 { assert(self_->U8_0@ =~= vx_ret->U8_0@); }
    if vx_ret is U64 { assert(self_->U64_0@ =~= vx_ret->U64_0@); }
    if vx_ret is Big { assert(self_->Big_0@ =~= vx_ret->Big_0@); }
}
//@ fn impl Clone for SparseArrayImpl::clone
//@ props C17
//@ ensures
sp_copy(*self_, r),
//@ fn impl Clone for DenseArrayValue::clone
//@ props C17
//@ ensures
self_.ainv() ==> arr_vw(&r) == arr_vw(self_),
//@ ghost end
proof { if self_.ainv() { assert(arr_vw(&vx_ret).2 =~= arr_vw(self_).2); } }
//@ fn impl Clone for SparseArrayValue::clone
//@ props C17
//@ ensures
self_.ainv() ==> arr_vw(&r) == arr_vw(self_), sp_default(r.data) == sp_default(self_.data),
//@ ghost end
proof { if self_.ainv() { assert(arr_vw(&vx_ret).2 =~= arr_vw(self_).2); } }
//@ fn impl Clone for ArrayImpl::clone
//@ props C17
//@ ensures
arr_copy(*self_, r),
//@ fn impl Clone for ArrayValue::clone
//@ props C17
//@ ensures
self_.ainv() ==> arr_vw(&r) == arr_vw(self_), arr_copy(self_.data, r.data),
//@ ghost end
proof {
    if self_.ainv() {
        if vx_ret.data is Dense { vw_same(&self_.data->Dense_0, &vx_ret.data->Dense_0); }
        if vx_ret.data is Sparse { vw_same(&self_.data->Sparse_0, &vx_ret.data->Sparse_0); }
        assert(arr_vw(&vx_ret).2 =~= arr_vw(self_).2);
    }
}
//@ module bv::borrowed
//@ fn impl Clone for BitVecValueRef::clone
//@ props C12
//@ ensures
r == *self_,
//@ module bv::indexed
//@ fn impl Clone for ValueInterner::clone
//@ props C13
//@ ensures
r.words@ == self_.words@, map_same(self_.small, r.small), map_same(self_.large, r.large),
//@ ghost end
proof { assert(vx_ret.words@ =~= self_.words@); }
