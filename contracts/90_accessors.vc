//@ module array::owned
//@ fn impl ArrayOps for ArrayValue::index_width
//@ props C15 C16 C18
//@ fn impl ArrayOps for ArrayValue::data_width
//@ props C15 C16 C18
//@ fn impl ArrayOps for ArrayValue::select
//@ props C15 C16
//@ fn impl ArrayMutOps for ArrayValue::store
//@ props C15 C16
//@ fn impl ArrayMutOps for ArrayValue::clear
//@ props C15 C16
//@ fn impl ArrayOps for DenseArrayValue::index_width
//@ props C15 C17 C18
//@ fn impl ArrayOps for DenseArrayValue::data_width
//@ props C15 C17 C18
//@ fn impl ArrayOps for SparseArrayValue::index_width
//@ props C16 C17 C18
//@ fn impl ArrayOps for SparseArrayValue::data_width
//@ props C16 C17 C18
//@ module bv::borrowed
//@ fn impl BitVecOps for BitVecValueRef::width
//@ props C12 C14
//@ fn impl BitVecOps for BitVecValueRef::words
//@ props C12 C14
//@ fn impl BitVecOps for BitVecValueMutRef::width
//@ props C12 C14 C22
//@ fn impl BitVecOps for BitVecValueMutRef::words
//@ props C12 C14 C22
//@ fn impl BitVecMutOps for BitVecValueMutRef::words_mut
//@ props C14 C22
//@ module bv::owned
//@ fn impl BitVecOps for BitVecValue::width
//@ props C01 C12
//@ fn impl BitVecOps for BitVecValue::words
//@ props C01 C12
//@ fn impl BitVecMutOps for BitVecValue::words_mut
//@ props C01 C22
//@ fn impl From<bool> for BitVecValue::from
//@ props C01 C07
//@ fn impl From<BitVecValueRef> for BitVecValue::from
//@ props C01 C12
//@ module bv::borrowed
//@ fn impl From<&BitVecValue> for BitVecValueRef::from
//@ props C12
//@ fn impl From<&mut BitVecValue> for BitVecValueMutRef::from
//@ props C12 C22
