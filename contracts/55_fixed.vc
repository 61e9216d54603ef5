//@ module bv::ops
//@ fn BitVecOps::to_unsigned_fixed_point
//@ props C20
//@ requires
wfw(self.ss(), self.sw() as int), fraction_width <= self.sw(),
//@ ensures
match r {
    Some(f) => fraction_width < 64 && val(self.ss()) < 0x1_0000_0000_0000_0000 && f.is_rat(val(self.ss()), p2(fraction_width as int)),
    None => fraction_width >= 64 || val(self.ss()) >= 0x1_0000_0000_0000_0000,
},
//@ ghost start
proof { if fraction_width < 64 { one_shl(fraction_width); } }
//@ fn BitVecOps::to_signed_fixed_point
//@ props C20
//@ requires
wfw(self.ss(), self.sw() as int), fraction_width <= self.sw(), self.sw() >= 1,
//@ ensures
match r {
    Some(f) => fraction_width < 64 && f.is_rat(sval(self.ss(), self.sw() as int), p2(fraction_width as int)),
    None => fraction_width >= 64 || if sval(self.ss(), self.sw() as int) < 0 { self.sw() > 64 } else { val(self.ss()) >= 0x1_0000_0000_0000_0000 },
},
//@ ghost start
proof { sign_half(self.ss(), self.sw() as int); }
//@ ghost after-let negated
proof {
    let w = self.sw() as int;
    neg_mag(self.ss(), negated.words@, w);
    p2_64(); p2_le(w, 64);
}
