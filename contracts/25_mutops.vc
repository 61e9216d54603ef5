//@ module bv::ops
//@ trait BitVecMutOps
    /// what a borrowed value leaves behind when the borrow ends
    #[verifier::prophetic]
    spec fn sfin(&self) -> Seq<u64>;
//@ module bv::ops
//@ fn BitVecMutOps::words_mut
//@ props C22
//@ ensures
r@ == old(self).ss(), final(self).sw() == old(self).sw(), final(self).sfin() == old(self).sfin(), final(self).ss() == final(r)@,
//@ fn BitVecMutOps::assign
//@ props C22 C15 C16
//@ requires
value.vx_into_req(), value.vx_into_spec().0 == old(self).sw(), value.vx_into_spec().1.len() == old(self).ss().len(),
//@ ensures
final(self).sw() == old(self).sw(), final(self).sfin() == old(self).sfin(), final(self).ss() == value.vx_into_spec().1,
//@ fn BitVecMutOps::mask_msb
//@ props C01 C22
//@ requires
old(self).ss().len() == nw(old(self).sw() as int), old(self).sw() >= 1,
//@ ensures
final(self).sw() == old(self).sw(), final(self).sfin() == old(self).sfin(), wfw(final(self).ss(), final(self).sw() as int),
forall|k: int| #[trigger] sbit(final(self).ss(), k) == (k < old(self).sw() && sbit(old(self).ss(), k)),
//@ fn BitVecMutOps::clear
//@ props C22 C15 C16 C01
//@ requires
old(self).ss().len() == nw(old(self).sw() as int),
//@ ensures
final(self).sw() == old(self).sw(), final(self).sfin() == old(self).sfin(), wfw(final(self).ss(), final(self).sw() as int), val(final(self).ss()) == 0,
forall|i: int| 0 <= i < final(self).ss().len() ==> #[trigger] final(self).ss()[i] == 0,
//@ loop 0
vx_n0 == vx_b1@.len(), vx_b1@.len() == old(self).ss().len(),
forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_b1@[j] == 0,
//@ ghost end
proof {
    let s = self.ss();
    val_zero(s);
    p2_pos(self.sw() as int);
    assert forall|k: int| !#[trigger] sbit(s, k) by { if 0 <= k < 64 * s.len() { assert(s[k / 64] == 0); w_zerobit(k % 64); } }
}
//@ fn BitVecMutOps::assign_ones
//@ props C22 C07 C01
//@ requires
old(self).ss().len() == nw(old(self).sw() as int), old(self).sw() >= 1,
//@ ensures
final(self).sw() == old(self).sw(), final(self).sfin() == old(self).sfin(), wfw(final(self).ss(), final(self).sw() as int), val(final(self).ss()) == p2(final(self).sw() as int) - 1,
forall|k: int| #[trigger] sbit(final(self).ss(), k) == (0 <= k < old(self).sw()),
//@ loop 0
vx_n0 == vx_b1@.len(), vx_b1@.len() == old(self).ss().len(),
forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_b1@[j] == Word::MAX,
//@ ghost before-call mask_msb
proof { assert forall|k: int| 0 <= k < 64 * self.ss().len() implies #[trigger] sbit(self.ss(), k) by { assert(self.ss()[k / 64] == Word::MAX); w_max(k % 64); } }
//@ ghost end
proof {
    let (s, w) = (self.ss(), self.sw() as int);
    let z = Seq::new(s.len(), |i: int| 0u64);
    val_zero(z);
    assert forall|k: int| !#[trigger] sbit(z, k) by { if 0 <= k < 64 * s.len() { w_zerobit(k % 64); } }
    not_val(z, s, w);
}
//@ fn BitVecMutOps::assign_from_u64
//@ props C22 C07 C01
//@ requires
old(self).ss().len() == nw(old(self).sw() as int), value < p2(old(self).sw() as int),
//@ ensures
final(self).sw() == old(self).sw(), final(self).sfin() == old(self).sfin(), wfw(final(self).ss(), final(self).sw() as int), val(final(self).ss()) == value,
//@ ghost start
proof { p2_64(); if self.sw() == 0 { val_zero(self.ss()); } }
//@ ghost before-call mask_msb
let ghost s1 = self.ss();
proof { val_one_word(s1); }
//@ ghost after-call mask_msb
proof {
    let w = self.sw() as int;
    val_mask(s1, self.ss(), w);
    vstd::arithmetic::div_mod::lemma_small_mod(value as nat, p2(w) as nat);
    val_inj(self.ss(), s1);
}
//@ fn BitVecMutOps::assign_from_i64
//@ props C22 C07 C01
//@ requires
old(self).ss().len() == nw(old(self).sw() as int), old(self).sw() >= 1, -p2(old(self).sw() - 1) <= value < p2(old(self).sw() - 1),
//@ ensures
final(self).sw() == old(self).sw(), final(self).sfin() == old(self).sfin(), wfw(final(self).ss(), final(self).sw() as int), sval(final(self).ss(), final(self).sw() as int) == value,
//@ ghost start
proof { if self.sw() <= 64 { i64_range(value, self.sw() as int); } i64_sval(value as u64); }
//@ ghost after-let masked
proof {
    let (t, w) = (seq![masked], width as int);
    assert forall|k: int| w <= k implies !#[trigger] sbit(t, k) by { if k < 64 { assert(sbit(t, k) == wbit(t[0], k)); } }
    assert(wfw(t, w));
    assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(value as u64, k) == (if k < w { sbit(t, k) } else { sbit(t, w - 1) }) by {
        assert(sbit(t, k) == wbit(t[0], k));
        assert(sbit(t, w - 1) == wbit(t[0], w - 1));
        assert(wbit(value as u64, w - 1) == (value < 0));
    }
    if w == 64 {
        assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(t[0], k) == wbit(value as u64, k) by { assert(sbit(t, k) == wbit(t[0], k)); }
        w_ext(masked, value as u64);
    }
    i64_fits(t, w, value as u64);
}
//@ ghost before-call is_negative
proof {
    let (s, w) = (self.ss(), width as int);
    let y = value as u64;
    assert((value as u64) as i64 == value) by (bit_vector);
    if s.len() == 1 {
        assert(s =~= seq![s[0]]);
        assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(s[0], k) == (k < w && wbit(y, k)) by { assert(sbit(s, k) == wbit(s[0], k)); }
        if w == 64 || value >= 0 { w_ext(s[0], y); }
    } else {
        sext_val(seq![y], s, 64, w);
        assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(s[0], k) == wbit(y, k) by { assert(sbit(s, k) == sbit(seq![y], k)); }
        w_ext(s[0], y);
    }
}
//@ ghost after-let word_0_with_bits
proof { w_ext(word_0_with_bits, value as u64); }
//@ fn BitVecMutOps::set_bit
//@ props C05 C22 C01 C15
//@ requires
wfw(old(self).ss(), old(self).sw() as int), pos < old(self).sw(),
//@ ensures
final(self).sw() == old(self).sw(), final(self).sfin() == old(self).sfin(), wfw(final(self).ss(), final(self).sw() as int),
forall|k: int| #[trigger] sbit(final(self).ss(), k) == (k == pos || sbit(old(self).ss(), k)),
//@ fn BitVecMutOps::clear_bit
//@ props C05 C22 C01 C15
//@ requires
wfw(old(self).ss(), old(self).sw() as int), pos < old(self).sw(),
//@ ensures
final(self).sw() == old(self).sw(), final(self).sfin() == old(self).sfin(), wfw(final(self).ss(), final(self).sw() as int),
forall|k: int| #[trigger] sbit(final(self).ss(), k) == (k != pos && sbit(old(self).ss(), k)),
