//@ module
//@ impl impl TryFrom<Value> for ArrayValue
//@ fn impl TryFrom<Value> for ArrayValue::try_from
//@ props C23
//@ ensures
match value { Value::Array(v) => r == Ok::<ArrayValue, ()>(v), Value::BitVec(v) => r == Err::<ArrayValue, ()>(()) },
//@ fn impl TryFrom<Value> for BitVecValue::try_from
//@ props C23
//@ ensures
match value { Value::BitVec(v) => r == Ok::<BitVecValue, ()>(v), Value::Array(v) => r == Err::<BitVecValue, ()>(()) },
//@ fn impl PartialEq for Value::eq
//@ props C23
//@ requires
match (*self_, *other) { (Value::Array(a), Value::Array(b)) => a.vx_eq_req(&b), (Value::BitVec(a), Value::BitVec(b)) => a.vx_eq_req(&b), _ => true },
//@ ensures
r == match (*self_, *other) { (Value::Array(a), Value::Array(b)) => a.vx_eq_is(&b), (Value::BitVec(a), Value::BitVec(b)) => a.vx_eq_is(&b), _ => false },
//@ fn impl Clone for Value::clone
//@ props C23
//@ ensures
match (*self_, r) {
    (Value::Array(a), Value::Array(b)) => a.ainv() ==> a.vw() == b.vw(),
    (Value::BitVec(a), Value::BitVec(b)) => a.width == b.width && a.words@ == b.words@,
    _ => false,
},
