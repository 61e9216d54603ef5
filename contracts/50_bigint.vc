//@ rename-method iter_u64_digits/0 => vx_u64_digits
//@ module bv::io::bigint
//@ mod bv::io::bigint
broadcast use {group_pow, group_comm};
//@ fn words_to_u32
//@ props C11
//@ requires
words@.len() <= 0x400_0000,
//@ ensures
val32(r@) == val(words@),
//@ loop 0
words32@.len() == 2 * vx_i0, vval32(words32@, 2 * vx_i0) == vval(words@, vx_i0 as int),
//@ ghost after-let mask32
proof { mask_is(32); p2_64(); w_ext(mask32, 0xffff_ffffu64); }
//@ ghost loop 0 start
let ghost a0 = words32@;
//@ ghost loop 0 end
proof {
    assert((word & 0xffff_ffff) as u32 == word as u32 && ((word >> 32) & 0xffff_ffff) as u32 == (word >> 32) as u32) by (bit_vector);
    assert(words32@ =~= a0.push(word as u32).push((word >> 32) as u32));
    val32_pair(a0, words32@, words@, vx_k0 as int);
}
//@ fn to_big_uint
//@ props C11
//@ requires
words@.len() <= 0x400_0000,
//@ ensures
r.bv() == val(words@),
//@ fn get_sign
//@ props C11
//@ requires
width >= 1, value@.len() == nw(width as int),
//@ ensures
r == if sbit(value@, width - 1) { num_bigint::Sign::Minus } else { num_bigint::Sign::Plus },
//@ ghost after-let sign_bit
proof { w_shr_bit(value@[value@.len() - 1], sign_bit); }
//@ fn to_big_int
//@ props C11
//@ requires
wfw(words@, width as int), width == 0 || words@.len() == nw(width as int),
//@ ensures
r.bv() == if width == 0 { 0int } else { sval(words@, width as int) },
//@ ghost start
proof {
    if width > 0 && sbit(words@, width - 1) {
        assert forall|c: Seq<u64>| wfw(c, width as int) && #[trigger] val(c) == (-val(words@)) % p2(width as int) implies
            val(c) == -sval(words@, width as int) && val(c) < p2(width as int) && val(c) > 0 by { neg_mag(words@, c, width as int); }
    }
}
//@ fn iter_to_word
//@ props C11
//@ requires
old(out)@.len() == nw(width as int),
//@ ensures
final(out)@.len() == old(out)@.len(), wfw(final(out)@, width as int), val(final(out)@) == val(iter@) % p2(width as int),
//@ ghost start
proof { p2_64(); if width == 0 { val_zero(out@); } }
//@ loop 0
word_count == vx_i0, out@.len() == old(out)@.len(),
forall|i: int| 0 <= i < vx_i0 ==> #[trigger] out@[i] == iter@[i],
//@ ghost before-call mask_msb
let ghost o1 = out@;
//@ ghost after-call mask_msb
proof { iter_trunc(iter@, o1, out@, width as int); }
//@ loop 1
out@.len() == old(out)@.len(),
forall|i: int| 0 <= i < vx_s1 ==> #[trigger] out@[i] == iter@[i],
forall|i: int| vx_s1 <= i < vx_s1 + vx_i1 ==> #[trigger] out@[i] == 0,
//@ ghost end
proof {
    if (forall|i: int| 0 <= i < out@.len() && i < iter@.len() ==> #[trigger] out@[i] == iter@[i])
        && iter@.len() < nw(width as int) && (forall|i: int| iter@.len() <= i < out@.len() ==> #[trigger] out@[i] == 0) {
        iter_trunc(iter@, out@, out@, width as int);
    }
}
//@ fn from_big_uint
//@ props C11
//@ requires
old(out)@.len() == nw(width as int),
//@ ensures
final(out)@.len() == old(out)@.len(), wfw(final(out)@, width as int), val(final(out)@) == value.bv() % p2(width as int),
//@ fn from_big_int
//@ props C11
//@ requires
width >= 1, old(out)@.len() == nw(width as int),
//@ ensures
final(out)@.len() == old(out)@.len(), wfw(final(out)@, width as int), val(final(out)@) == value.bv() % p2(width as int),
//@ loop 0
vx_r0@.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> #[trigger] vx_r0@[i] == out@[i],
//@ ghost after-let out_copy
proof { assert(out_copy@ =~= out@); neg_mod(val(value.digits()), val(out_copy@), width as int); }
//@ fn count_big_uint_bits
//@ props C11
//@ requires
value.digits().len() <= 0x3ff_ffff,
//@ ensures
bit_len(value.bv(), r as int),
//@ ghost start
proof { p2_64(); if value.digits().len() > 0 && big_norm(value.digits()) { big_bits(value.digits()); } }
//@ fn count_big_int_bits
//@ props C11
//@ requires
value.digits().len() <= 0x3ff_ffff,
//@ ensures
r >= 1, bit_len(if value.bv() < 0 { -value.bv() } else { value.bv() }, r - 1),
//@ ghost start
proof { p2_64(); if value.digits().len() > 0 && big_norm(value.digits()) { big_bits(value.digits()); } }
//@ module bv::ops
//@ fn BitVecOps::to_big_int
//@ props C11
//@ requires
wfw(self.ss(), self.sw() as int),
//@ ensures
r.bv() == if self.sw() == 0 { 0int } else { sval(self.ss(), self.sw() as int) },
//@ fn BitVecOps::to_big_uint
//@ props C11
//@ requires
wfw(self.ss(), self.sw() as int),
//@ ensures
r.bv() == val(self.ss()),
//@ module bv::owned
//@ fn BitVecValue::from_big_int
//@ props C11 C01
//@ requires
bits >= 1,
//@ ensures
r.width == bits, wfw(r.words@, bits as int), val(r.words@) == value.bv() % p2(bits as int),
//@ fn BitVecValue::from_big_uint
//@ props C11 C01
//@ ensures
r.width == bits, wfw(r.words@, bits as int), val(r.words@) == value.bv() % p2(bits as int),
//@ impl impl From<&num_bigint::BigInt> for BitVecValue
    open spec fn vx_from_req(v: &num_bigint::BigInt) -> bool { v.digits().len() <= 0x3ff_ffff }
    open spec fn vx_from_spec(v: &num_bigint::BigInt) -> (u32, Seq<u64>) { choose|p: (u32, Seq<u64>)| big_int_vec(p, v.bv()) }
//@ fn impl From<&num_bigint::BigInt> for BitVecValue::from
//@ props C11 C01
//@ ensures
big_int_vec((r.width, r.words@), value.bv()),
//@ ghost end
proof { big_int_uniq((vx_ret.width, vx_ret.words@), value.bv()); }
//@ impl impl From<&num_bigint::BigUint> for BitVecValue
    open spec fn vx_from_req(v: &num_bigint::BigUint) -> bool { v.digits().len() <= 0x3ff_ffff }
    open spec fn vx_from_spec(v: &num_bigint::BigUint) -> (u32, Seq<u64>) { choose|p: (u32, Seq<u64>)| big_uint_vec(p, v.bv()) }
//@ fn impl From<&num_bigint::BigUint> for BitVecValue::from
//@ props C11 C01
//@ ensures
big_uint_vec((r.width, r.words@), value.bv()),
//@ ghost end
proof { big_uint_uniq((vx_ret.width, vx_ret.words@), value.bv()); }
