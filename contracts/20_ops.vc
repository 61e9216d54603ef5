//@ rename-type SmallVec<[Word; 2]> => Vec<Word>
//@ rename-path SmallVec::from_slice => vx_from_slice
//@ rename-path Into => VxInto
//@ rename-method into/0 => vx_into
//@ rename-method as_ref/0 => as_slice
//@ rename-method as_mut/0 => as_mut_slice
//@ module bv::ops
//@ mod bv::ops
broadcast use group_wbit;
//@ trait BitVecOps
    spec fn sw(&self) -> u32;
    spec fn ss(&self) -> Seq<u64>;
//@ fn BitVecOps::width
//@ ensures
r == self.sw(),
//@ fn BitVecOps::words
//@ ensures
r@ == self.ss(),
