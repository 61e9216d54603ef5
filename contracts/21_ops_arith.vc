//@ module bv::ops
//@ fn BitVecOps::add
//@ props C02 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r.width == self.sw(), wfw(r.words@, self.sw() as int),
val(r.words@) == (val(self.ss()) + val(rhs.ss())) % p2(self.sw() as int),
//@ ghost end
proof {
    let w = self.sw() as int;
    let (a, b, q) = (self.ss(), rhs.ss(), vx_ret.words@);
    wf_bound(a, w); wf_bound(b, w); p2_pos(val(b));
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); assert(q.subrange(0, 1) =~= q); }
    
}
//@ fn BitVecOps::sub
//@ props C02 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r.width == self.sw(), wfw(r.words@, self.sw() as int),
val(r.words@) == (val(self.ss()) - val(rhs.ss())) % p2(self.sw() as int),
//@ ghost end
proof {
    let w = self.sw() as int;
    let (a, b, q) = (self.ss(), rhs.ss(), vx_ret.words@);
    wf_bound(a, w); wf_bound(b, w); p2_pos(val(b));
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); assert(q.subrange(0, 1) =~= q); }
    
}
//@ fn BitVecOps::mul
//@ props C02 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int), self.sw() <= 64,
//@ ensures
r.width == self.sw(), wfw(r.words@, self.sw() as int),
val(r.words@) == (val(self.ss()) * val(rhs.ss())) % p2(self.sw() as int),
//@ ghost end
proof {
    let w = self.sw() as int;
    let (a, b, q) = (self.ss(), rhs.ss(), vx_ret.words@);
    wf_bound(a, w); wf_bound(b, w); p2_pos(val(b));
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); assert(q.subrange(0, 1) =~= q); }
    
}
//@ fn BitVecOps::and
//@ props C03 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r.width == self.sw(), wfw(r.words@, self.sw() as int),
forall|k: int| #[trigger] sbit(r.words@, k) == (sbit(self.ss(), k) && sbit(rhs.ss(), k)),
//@ ghost end
proof {
    let w = self.sw() as int;
    let (a, b, q) = (self.ss(), rhs.ss(), vx_ret.words@);
    wf_bound(a, w); wf_bound(b, w); p2_pos(val(b));
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); assert(q.subrange(0, 1) =~= q); }
    assert(wfw(q, w)) by { assert forall|k: int| w <= k implies !#[trigger] sbit(q, k) by { assert(!sbit(a, k)); assert(!sbit(b, k)); } }
}
//@ fn BitVecOps::or
//@ props C03 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r.width == self.sw(), wfw(r.words@, self.sw() as int),
forall|k: int| #[trigger] sbit(r.words@, k) == (sbit(self.ss(), k) || sbit(rhs.ss(), k)),
//@ ghost end
proof {
    let w = self.sw() as int;
    let (a, b, q) = (self.ss(), rhs.ss(), vx_ret.words@);
    wf_bound(a, w); wf_bound(b, w); p2_pos(val(b));
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); assert(q.subrange(0, 1) =~= q); }
    assert(wfw(q, w)) by { assert forall|k: int| w <= k implies !#[trigger] sbit(q, k) by { assert(!sbit(a, k)); assert(!sbit(b, k)); } }
}
//@ fn BitVecOps::xor
//@ props C03 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r.width == self.sw(), wfw(r.words@, self.sw() as int),
forall|k: int| #[trigger] sbit(r.words@, k) == (sbit(self.ss(), k) != sbit(rhs.ss(), k)),
//@ ghost end
proof {
    let w = self.sw() as int;
    let (a, b, q) = (self.ss(), rhs.ss(), vx_ret.words@);
    wf_bound(a, w); wf_bound(b, w); p2_pos(val(b));
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); assert(q.subrange(0, 1) =~= q); }
    assert(wfw(q, w)) by { assert forall|k: int| w <= k implies !#[trigger] sbit(q, k) by { assert(!sbit(a, k)); assert(!sbit(b, k)); } }
}
//@ fn BitVecOps::shift_left
//@ props C04 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r.width == self.sw(), wfw(r.words@, self.sw() as int),
val(r.words@) == (val(self.ss()) * p2(val(rhs.ss()))) % p2(self.sw() as int),
//@ ghost start
proof { let (a, b) = (self.ss(), rhs.ss()); if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); val_one_word(a); val_one_word(b); } }
//@ ghost end
proof {
    let w = self.sw() as int;
    let (a, b, q) = (self.ss(), rhs.ss(), vx_ret.words@);
    wf_bound(a, w); wf_bound(b, w); p2_pos(val(b));
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); assert(q.subrange(0, 1) =~= q); }
    shl_val(a, q, val(b), w);
}
//@ fn BitVecOps::shift_right
//@ props C04 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r.width == self.sw(), wfw(r.words@, self.sw() as int),
val(r.words@) == val(self.ss()) / p2(val(rhs.ss())),
//@ ghost start
proof { let (a, b) = (self.ss(), rhs.ss()); if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); val_one_word(a); val_one_word(b); } }
//@ ghost end
proof {
    let w = self.sw() as int;
    let (a, b, q) = (self.ss(), rhs.ss(), vx_ret.words@);
    wf_bound(a, w); wf_bound(b, w); p2_pos(val(b));
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); assert(q.subrange(0, 1) =~= q); }
    assert(wfw(q, w)) by { assert forall|k: int| w <= k implies !#[trigger] sbit(q, k) by { assert(!sbit(a, k + val(b))); } } shr_val(a, q, val(b));
}
//@ fn BitVecOps::arithmetic_shift_right
//@ props C04 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r.width == self.sw(), wfw(r.words@, self.sw() as int),
sval(r.words@, self.sw() as int) == sval(self.ss(), self.sw() as int) / p2(val(rhs.ss())),
//@ ghost start
proof { let (a, b) = (self.ss(), rhs.ss()); if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); val_one_word(a); val_one_word(b); } }
//@ ghost end
proof {
    let w = self.sw() as int;
    let (a, b, q) = (self.ss(), rhs.ss(), vx_ret.words@);
    wf_bound(a, w); wf_bound(b, w); p2_pos(val(b));
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); assert(q.subrange(0, 1) =~= q); }
    ashr_val(a, q, val(b), w);
}
//@ fn BitVecOps::is_equal
//@ props C06 C12
//@ requires
rhs.sw() == self.sw(), rhs.ss().len() == self.ss().len(),
//@ ensures
r == (self.ss() == rhs.ss()), r == (val(self.ss()) == val(rhs.ss())),
//@ ghost start
proof {
    let (a, b) = (self.ss(), rhs.ss());
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); if a[0] == b[0] { assert(a =~= b); } }
    if val(a) == val(b) { val_inj(a, b); }
}
//@ fn BitVecOps::is_not_equal
//@ props C06
//@ requires
wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r == (val(self.ss()) != val(rhs.ss())),
//@ ghost start
proof {
    let (a, b) = (self.ss(), rhs.ss());
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); val_one_word(a); val_one_word(b); }
    if val(a) == val(b) { val_inj(a, b); }
}
//@ fn BitVecOps::is_greater
//@ props C06
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r == (val(self.ss()) > val(rhs.ss())),
//@ ghost start
proof {
    let (a, b) = (self.ss(), rhs.ss());
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); val_one_word(a); val_one_word(b); }
    if val(a) == val(b) { val_inj(a, b); }
}
//@ fn BitVecOps::is_greater_or_equal
//@ props C06
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r == (val(self.ss()) >= val(rhs.ss())),
//@ ghost start
proof {
    let (a, b) = (self.ss(), rhs.ss());
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); val_one_word(a); val_one_word(b); }
    if val(a) == val(b) { val_inj(a, b); }
}
//@ fn BitVecOps::is_less
//@ props C06
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r == (val(self.ss()) < val(rhs.ss())),
//@ ghost start
proof {
    let (a, b) = (self.ss(), rhs.ss());
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); val_one_word(a); val_one_word(b); }
    if val(a) == val(b) { val_inj(a, b); }
}
//@ fn BitVecOps::is_less_or_equal
//@ props C06
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r == (val(self.ss()) <= val(rhs.ss())),
//@ ghost start
proof {
    let (a, b) = (self.ss(), rhs.ss());
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); val_one_word(a); val_one_word(b); }
    if val(a) == val(b) { val_inj(a, b); }
}
//@ fn BitVecOps::is_greater_signed
//@ props C06
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r == (sval(self.ss(), self.sw() as int) > sval(rhs.ss(), self.sw() as int)),
//@ ghost start
proof {
    let (a, b) = (self.ss(), rhs.ss());
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); val_one_word(a); val_one_word(b); }
    if val(a) == val(b) { val_inj(a, b); }
}
//@ fn BitVecOps::is_greater_or_equal_signed
//@ props C06
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r == (sval(self.ss(), self.sw() as int) >= sval(rhs.ss(), self.sw() as int)),
//@ ghost start
proof {
    let (a, b) = (self.ss(), rhs.ss());
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); val_one_word(a); val_one_word(b); }
    if val(a) == val(b) { val_inj(a, b); }
}
//@ fn BitVecOps::is_less_signed
//@ props C06
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r == (sval(self.ss(), self.sw() as int) < sval(rhs.ss(), self.sw() as int)),
//@ ghost start
proof {
    let (a, b) = (self.ss(), rhs.ss());
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); val_one_word(a); val_one_word(b); }
    if val(a) == val(b) { val_inj(a, b); }
}
//@ fn BitVecOps::is_less_or_equal_signed
//@ props C06
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() == self.sw(), wfw(rhs.ss(), self.sw() as int),
//@ ensures
r == (sval(self.ss(), self.sw() as int) <= sval(rhs.ss(), self.sw() as int)),
//@ ghost start
proof {
    let (a, b) = (self.ss(), rhs.ss());
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); assert(b.subrange(0, 1) =~= b); val_one_word(a); val_one_word(b); }
    if val(a) == val(b) { val_inj(a, b); }
}
//@ fn BitVecOps::slice
//@ props C05 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), lsb <= msb < self.sw(),
//@ ensures
r.width == msb - lsb + 1, wfw(r.words@, msb - lsb + 1),
forall|k: int| #[trigger] sbit(r.words@, k) == (0 <= k <= msb - lsb && sbit(self.ss(), lsb + k)),
val(r.words@) == (val(self.ss()) / p2(lsb as int)) % p2(msb - lsb + 1),
//@ ghost start
proof { let a = self.ss(); if a.len() == 1 { assert(a.subrange(0, 1) =~= a); } }
//@ ghost end
proof {
    let w = self.sw() as int;
    let ow = msb - lsb + 1;
    let (a, q) = (self.ss(), vx_ret.words@);
    wf_bound(a, w);
    if q.len() == 1 { assert(q.subrange(0, 1) =~= q); }
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); }
    slice_val(a, q, msb as int, lsb as int);
}
//@ fn BitVecOps::sign_extend
//@ props C05 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), self.sw() + by <= u32::MAX,
//@ ensures
r.width == self.sw() + by, wfw(r.words@, self.sw() + by),
forall|k: int| #[trigger] sbit(r.words@, k) == (if k < self.sw() { sbit(self.ss(), k) } else { k < self.sw() + by && sbit(self.ss(), self.sw() - 1) }),
sval(r.words@, self.sw() + by) == sval(self.ss(), self.sw() as int),
//@ ghost start
proof { let a = self.ss(); if a.len() == 1 { assert(a.subrange(0, 1) =~= a); } }
//@ ghost end
proof {
    let w = self.sw() as int;
    let ow = self.sw() + by;
    let (a, q) = (self.ss(), vx_ret.words@);
    wf_bound(a, w);
    if q.len() == 1 { assert(q.subrange(0, 1) =~= q); }
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); }
    sext_val(a, q, w, ow);
}
//@ fn BitVecOps::zero_extend
//@ props C05 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), self.sw() + by <= u32::MAX,
//@ ensures
r.width == self.sw() + by, wfw(r.words@, self.sw() + by),
forall|k: int| #[trigger] sbit(r.words@, k) == sbit(self.ss(), k),
val(r.words@) == val(self.ss()),
//@ ghost start
proof { let a = self.ss(); if a.len() == 1 { assert(a.subrange(0, 1) =~= a); } }
//@ ghost end
proof {
    let w = self.sw() as int;
    let ow = self.sw() + by;
    let (a, q) = (self.ss(), vx_ret.words@);
    wf_bound(a, w);
    if q.len() == 1 { assert(q.subrange(0, 1) =~= q); }
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); }
    assert forall|k: int| ow <= k implies !#[trigger] sbit(q, k) by { assert(!sbit(a, k)); } assert(beq(q, a)); val_ext(q, a);
}
//@ fn BitVecOps::not
//@ props C03 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int),
//@ ensures
r.width == self.sw() as int, wfw(r.words@, self.sw() as int),
forall|k: int| #[trigger] sbit(r.words@, k) == (0 <= k < self.sw() && !sbit(self.ss(), k)),
val(r.words@) == p2(self.sw() as int) - 1 - val(self.ss()),
//@ ghost start
proof { let a = self.ss(); if a.len() == 1 { assert(a.subrange(0, 1) =~= a); } }
//@ ghost end
proof {
    let w = self.sw() as int;
    let ow = self.sw() as int;
    let (a, q) = (self.ss(), vx_ret.words@);
    wf_bound(a, w);
    if q.len() == 1 { assert(q.subrange(0, 1) =~= q); }
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); }
    not_val(a, q, w);
}
//@ fn BitVecOps::negate
//@ props C02 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int),
//@ ensures
r.width == self.sw() as int, wfw(r.words@, self.sw() as int),
val(r.words@) == (-val(self.ss())) % p2(self.sw() as int),
//@ ghost start
proof { let a = self.ss(); if a.len() == 1 { assert(a.subrange(0, 1) =~= a); } }
//@ ghost end
proof {
    let w = self.sw() as int;
    let ow = self.sw() as int;
    let (a, q) = (self.ss(), vx_ret.words@);
    wf_bound(a, w);
    if q.len() == 1 { assert(q.subrange(0, 1) =~= q); }
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); }
    
}
//@ fn BitVecOps::concat
//@ props C05 C01
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int), rhs.sw() >= 1, wfw(rhs.ss(), rhs.sw() as int), self.sw() + rhs.sw() <= u32::MAX,
//@ ensures
r.width == self.sw() + rhs.sw(), wfw(r.words@, self.sw() + rhs.sw()),
forall|k: int| #[trigger] sbit(r.words@, k) == (if k < rhs.sw() { sbit(rhs.ss(), k) } else { sbit(self.ss(), k - rhs.sw()) }),
val(r.words@) == val(self.ss()) * p2(rhs.sw() as int) + val(rhs.ss()),
//@ ghost start
proof {
    let (a, b) = (self.ss(), rhs.ss());
    if a.len() == 1 { assert(a.subrange(0, 1) =~= a); }
    if b.len() == 1 { assert(b.subrange(0, 1) =~= b); }
}
//@ ghost end
proof {
    let (a, b, q) = (self.ss(), rhs.ss(), vx_ret.words@);
    if q.len() == 1 { assert(q.subrange(0, 1) =~= q); }
    assert forall|k: int| self.sw() + rhs.sw() <= k implies !#[trigger] sbit(q, k) by { assert(!sbit(a, k - rhs.sw())); }
    concat_val(a, b, q, rhs.sw() as int);
}
//@ fn BitVecOps::is_bit_set
//@ props C05
//@ requires
pos < self.sw(), wfw(self.ss(), self.sw() as int),
//@ ensures
r == sbit(self.ss(), pos as int),
//@ fn BitVecOps::to_bool
//@ props C07
//@ requires
wfw(self.ss(), self.sw() as int),
//@ ensures
self.sw() != 1 ==> r is None,
self.sw() == 1 ==> r == Some(val(self.ss()) == 1),
//@ ghost start
proof { wf_bound(self.ss(), self.sw() as int); p2_64(); if self.sw() == 1 { val_one_word(self.ss()); val_bit(self.ss(), 0); nbit_half(val(self.ss()), 0); } }
//@ fn BitVecOps::to_u64
//@ props C07 C20
//@ requires
wfw(self.ss(), self.sw() as int),
//@ ensures
match r { Some(v) => v == val(self.ss()), None => val(self.ss()) >= 0x1_0000_0000_0000_0000 },
//@ loop 0
vx_b1@ == self.ss(), vx_n0 == if vx_b1@.len() == 0 { 0 } else { vx_b1@.len() - 1 },
vx_r0 ==> forall|j: int| 1 <= j <= vx_i0 ==> #[trigger] vx_b1@[j] == 0,
!vx_r0 ==> val(vx_b1@) >= 0x1_0000_0000_0000_0000,
//@ ghost loop 0 start
proof { if vx_b1@[vx_k0 + 1] != 0 { val_word(vx_b1@, vx_k0 + 1); } }
//@ ghost start
proof {
    let s = self.ss();
    if s.len() == 0 { val_zero(s); }
    else if forall|j: int| 1 <= j < s.len() ==> #[trigger] s[j] == 0 { val_one_word(s); }
}
//@ fn BitVecOps::to_i64
//@ props C07
//@ requires
wfw(self.ss(), self.sw() as int),
//@ ensures
match r { Some(v) => v == sval(self.ss(), self.sw() as int), None => !(i64::MIN <= sval(self.ss(), self.sw() as int) <= i64::MAX) },
//@ ghost start
proof {
    let (s, w) = (self.ss(), self.sw() as int);
    if s.len() > 0 {
        let x = s[0];
        assert(((x as i64) < 0) == ((x >> 63) & 1 == 1)) by (bit_vector);
        assert(wbit(x, 63) == ((x >> 63) & 1 == 1)) by { assert(63u64 as int == 63); }
    }
    if w == 0 { val_zero(s); }
    else if w == 64 { i64_fits(s, w, s[0]); }
    else if w < 64 {
        assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(s[0], k) == sbit(s, k) by {}
        if !sbit(s, w - 1) { i64_fits(s, w, s[0]); }
    }
}
//@ ghost after-let extra_sign_bits
proof {
    let (s, w) = (self.ss(), self.sw() as int);
    assert(sbit(s, w - 1));
    assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(s[0] | extra_sign_bits, k) == (if k < w { sbit(s, k) } else { sbit(s, w - 1) }) by {
        assert(wbit(s[0], k) == sbit(s, k));
    }
    i64_fits(s, w, s[0] | extra_sign_bits);
}
//@ loop 0
vx_b1@ == self.ss(), vx_n0 == vx_b1@.len() - 1,
vx_r0 ==> forall|j: int| 1 <= j <= vx_i0 ==> #[trigger] vx_b1@[j] == 0,
!vx_r0 ==> exists|k: int| 64 <= k && #[trigger] sbit(vx_b1@, k),
//@ ghost loop 0 start
proof {
    let x = vx_b1@[vx_k0 + 1];
    if x != 0 {
        w_some_bit(x);
        let k = choose|k: int| 0 <= k < 64 && #[trigger] wbit(x, k);
        assert((64 * (vx_k0 + 1) + k) / 64 == vx_k0 + 1 && (64 * (vx_k0 + 1) + k) % 64 == k);
        assert(sbit(vx_b1@, 64 * (vx_k0 + 1) + k));
    }
}
//@ loop 1
vx_b2@ == self.ss(), vx_lo3 == 1, vx_hi4 == msb_word, vx_n1 == msb_word - 1, msb_word == self.ss().len() - 1,
vx_r1 ==> forall|j: int| 1 <= j <= vx_i1 ==> #[trigger] vx_b2@[j] == Word::MAX,
!vx_r1 ==> exists|k: int| 64 <= k < self.sw() && !#[trigger] sbit(vx_b2@, k),
//@ ghost loop 1 start
proof {
    let x = vx_b2@[vx_k1 + 1];
    if x != Word::MAX {
        assert(x != 0xffff_ffff_ffff_ffff ==> !x != 0) by (bit_vector);
        w_some_bit(!x);
        let k = choose|k: int| 0 <= k < 64 && #[trigger] wbit(!x, k);
        assert(!wbit(x, k));
        assert((64 * (vx_k1 + 1) + k) / 64 == vx_k1 + 1 && (64 * (vx_k1 + 1) + k) % 64 == k);
        assert(!sbit(vx_b2@, 64 * (vx_k1 + 1) + k));
    }
}
//@ ghost after-let all_max_msbs
proof {
    let (s, w) = (self.ss(), self.sw() as int);
    let n = s.len() - 1;
    let m = s[n];
    let b = w % 64;
    // the top word in terms of bits
    assert(nw(w) == s.len());
    if all_max_msbs {
        assert forall|k: int| 64 <= k < w implies #[trigger] sbit(s, k) by {
            if k / 64 == n { } else { w_max(k % 64); assert(s[k / 64] == Word::MAX); }
        }
    } else if !(exists|k: int| 64 <= k < w && !#[trigger] sbit(s, k)) {
        // all bits from 64 on are set: contradiction
        lemma_top_mask(s, w);
        assert(is_mask(s[n], (w % 64) as u32));
    }
    assert(sbit(s, 63) == wbit(word_0, 63));
    assert(sbit(seq![word_0], 63) == wbit(word_0, 63));
    let hi = exists|k: int| 64 <= k && #[trigger] sbit(s, k);
    if all_zero_msbs {
        assert forall|k: int| 64 <= k < w implies !#[trigger] sbit(s, k) by { assert(s[k / 64] == 0); w_zerobit(k % 64); }
    }
    if all_zero_msbs && !wbit(word_0, 63) { i64_fits(s, w, word_0); }
    else if all_max_msbs && wbit(word_0, 63) { i64_fits(s, w, word_0); }
    else if all_zero_msbs { assert(!sbit(s, w - 1)); i64_unfit(s, w, 63); }
    else if all_max_msbs { assert(sbit(s, w - 1)); i64_unfit(s, w, 63); }
    else {
        let k1 = choose|k: int| 64 <= k && #[trigger] sbit(s, k);
        let k2 = choose|k: int| 64 <= k < w && !#[trigger] sbit(s, k);
        if sbit(s, w - 1) { i64_unfit(s, w, k2); } else { assert(k1 < w); i64_unfit(s, w, k1); }
    }
}
//@ fn BitVecOps::is_tru
//@ props C07
//@ requires
wfw(self.ss(), self.sw() as int),
//@ ensures
r == (self.sw() == 1 && val(self.ss()) == 1),
//@ ghost start
proof { if self.sw() == 1 { val_one_word(self.ss()); wf_bound(self.ss(), 1); p2_64(); } }
//@ fn BitVecOps::is_fals
//@ props C07
//@ requires
wfw(self.ss(), self.sw() as int),
//@ ensures
r == (self.sw() == 1 && val(self.ss()) == 0),
//@ ghost start
proof { if self.sw() == 1 { val_one_word(self.ss()); wf_bound(self.ss(), 1); p2_64(); } }
//@ fn BitVecOps::is_zero
//@ props C07
//@ ensures
r == (val(self.ss()) == 0),
//@ loop 0
vx_b1@ == self.ss(), vx_n0 == vx_b1@.len(),
vx_r0 ==> forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_b1@[j] == 0,
!vx_r0 ==> val(self.ss()) != 0,
//@ ghost loop 0 start
proof { if vx_b1@[vx_k0 as int] != 0 { val_word(vx_b1@, vx_k0 as int); } }
//@ ghost end
proof { if vx_ret { val_zero(self.ss()); } }
//@ fn BitVecOps::is_negative
//@ props C07
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int),
//@ ensures
r == (sval(self.ss(), self.sw() as int) < 0), r == sbit(self.ss(), self.sw() - 1),
//@ ghost start
proof { sign_half(self.ss(), self.sw() as int); p2_pos(self.sw() - 1); }

