//@ module bv::arithmetic
//@ mod bv::arithmetic
broadcast use group_wbit;
//@ fn mask
//@ props C01 C04 C05
//@ requires
bits <= 64,
//@ ensures
forall|k: int| #[trigger] wbit(r, k) == (0 <= k < 64 && (bits == 0 || k < bits)),
forall|m: u64| #[trigger] is_mask(m, bits) ==> m == r,
//@ ghost start
proof { w_mask(bits); }
//@ ghost end
proof {
    assert forall|k: int| #[trigger] wbit(vx_ret, k) == (0 <= k < 64 && (bits == 0 || k < bits)) by { if 0 <= k < 64 { w_max(k); } }
    assert forall|m: u64| #[trigger] is_mask(m, bits) implies m == vx_ret by { w_ext(m, vx_ret); }
}
//@ fn clear
//@ props C01 C04 C15 C22
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|i: int| 0 <= i < final(dst)@.len() ==> final(dst)@[i] == 0,
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_n0 == dst@.len(),
    forall|i: int| 0 <= i < vx_i0 ==> dst@[i] == 0,
//@ fn set
//@ props C05
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|i: int| 0 <= i < final(dst)@.len() ==> final(dst)@[i] == u64::MAX,
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_n0 == dst@.len(),
    forall|i: int| 0 <= i < vx_i0 ==> dst@[i] == u64::MAX,
//@ fn assign
//@ props C22 C05
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|i: int| 0 <= i < final(dst)@.len() ==> final(dst)@[i] == if i < source@.len() { source@[i] } else { old(dst)@[i] },
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_n0 <= dst@.len(), vx_n0 <= source@.len(), vx_n0 == dst@.len() || vx_n0 == source@.len(),
    forall|i: int| 0 <= i < dst@.len() ==> dst@[i] == if i < vx_i0 { source@[i] } else { old(dst)@[i] },
//@ fn zero_extend
//@ props C05
//@ requires
source@.len() <= old(dst)@.len(),
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|i: int| 0 <= i < final(dst)@.len() ==> final(dst)@[i] == if i < source@.len() { source@[i] } else { 0u64 },
beq(final(dst)@, source@),
//@ fn sign_extend
//@ props C05
//@ requires
1 <= src_width <= dst_width, wfw(source@, src_width as int), old(dst)@.len() == nw(dst_width as int),
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|k: int| #[trigger] sbit(final(dst)@, k) == (if k < src_width { sbit(source@, k) } else { k < dst_width && sbit(source@, src_width - 1) }),
//@ ghost start
let ghost d0 = dst@;
//@ ghost before-call mask_msb
proof {
    assert forall|k: int| 0 <= k < 64 * dst@.len() implies #[trigger] sbit(dst@, k) == (if k < src_width { sbit(source@, k) } else { true }) by {
        let i = k / 64;
        let n = source@.len() as int;
        if i < n { assert(sbit(source@, k) == wbit(source@[i], k % 64)); }
    }
}
//@ ghost after-call clear
proof { assert forall|k: int| #[trigger] sbit(dst@, k) == sbit(source@, k) by {} }
//@ fn mask_msb
//@ props C01
//@ requires
old(dst)@.len() == nw(width as int), old(dst)@.len() >= 1,
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|i: int| 0 <= i < final(dst)@.len() - 1 ==> final(dst)@[i] == old(dst)@[i],
forall|k: int| #[trigger] sbit(final(dst)@, k) == (k < width && sbit(old(dst)@, k)),
//@ fn is_bit_set
//@ props C05
//@ requires
pos < 64 * source@.len(),
//@ ensures
r == sbit(source@, pos as int),
//@ ghost start
proof { assert forall|x: u64, n: u32| n < 64 implies ((#[trigger] (x >> n)) & 1 == 1) == wbit(x, n as int) by { w_shr_bit(x, n); } }
//@ fn set_bit
//@ props C05
//@ requires
pos < 64 * old(dst)@.len(),
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|k: int| #[trigger] sbit(final(dst)@, k) == (k == pos || sbit(old(dst)@, k)),
//@ fn clear_bit
//@ props C05
//@ requires
pos < 64 * old(dst)@.len(),
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|k: int| #[trigger] sbit(final(dst)@, k) == (k != pos && sbit(old(dst)@, k)),
//@ fn slice
//@ props C05
//@ requires
lo <= hi, hi < 64 * source@.len(), old(dst)@.len() == nw(hi - lo + 1), hi - lo < u32::MAX,
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|k: int| #[trigger] sbit(final(dst)@, k) == (0 <= k <= hi - lo && sbit(source@, lo + k)),
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_n0 <= dst@.len(), src@.len() >= 1,
    vx_n0 == dst@.len() || vx_n0 == src@.len(),
    vx_i0 < src@.len() ==> prev == src@[vx_i0 as int] >> shift_right,
    forall|i: int, j: int| 0 <= i < vx_i0 && 0 <= j < 64 ==> #[trigger] wbit(dst@[i], j) == sbit(src@, shift_right + 64 * i + j),
//@ fn concat
//@ props C05
//@ requires
lsb@.len() == nw(lsb_width as int), lsb_width >= 1, wfw(lsb@, lsb_width as int), msb@.len() >= 1,
old(dst)@.len() == lsb@.len() + msb@.len() || old(dst)@.len() + 1 == lsb@.len() + msb@.len(),
forall|k: int| 64 * old(dst)@.len() - lsb_width <= k ==> !#[trigger] sbit(msb@, k),
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|k: int| #[trigger] sbit(final(dst)@, k) == (if k < lsb_width { sbit(lsb@, k) } else { sbit(msb@, k - lsb_width) }),
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_s1 == lsb@.len(), vx_n0 + vx_s1 <= dst@.len(), vx_n0 == msb@.len() || vx_n0 + vx_s1 == dst@.len(),
    forall|i: int| 0 <= i < lsb@.len() ==> dst@[i] == lsb@[i],
    forall|i: int| lsb@.len() <= i < lsb@.len() + vx_i0 ==> dst@[i] == msb@[i - lsb@.len()],
//@ loop 1
    dst@.len() == old(dst)@.len(), vx_n1 <= dst@.len() + 1 - lsb@.len(), vx_n1 == msb@.len() + 1 || vx_n1 + lsb@.len() - 1 == dst@.len(), vx_n1 <= msb@.len() + 1,
    forall|i: int| 0 <= i < lsb@.len() - 1 ==> dst@[i] == lsb@[i],
    vx_i1 == 0 ==> prev == lsb@[lsb@.len() - 1],
    0 < vx_i1 <= msb@.len() ==> prev == msb@[vx_i1 - 1] >> shift_right,
    forall|i: int, j: int| lsb@.len() - 1 <= i < lsb@.len() - 1 + vx_i1 && 0 <= j < 64 ==> #[trigger] wbit(dst@[i], j) == (if i == lsb@.len() - 1 && j < lsb_offset { wbit(lsb@[i], j) } else { sbit(msb@, 64 * (i - lsb@.len() + 1) + j - lsb_offset) }),
//@ ghost loop 1 start
let ghost p0 = prev;
//@ ghost loop 1 end
proof {
    let q = lsb@.len() - 1 + vx_k1;
    let x = dst@[q];
    let s = if vx_k1 < msb@.len() { msb@[vx_k1 as int] } else { 0 };
    let o = lsb_offset as int;
    assert forall|j: int| 0 <= j < 64 implies #[trigger] wbit(x, j) == (wbit(p0, j) || (j >= o && wbit(s, j - o))) by {}
    assert forall|j: int| 0 <= j < 64 implies wbit(x, j) == (if q == lsb@.len() - 1 && j < o { wbit(lsb@[q], j) } else { sbit(msb@, 64 * vx_k1 + j - o) }) by {
        assert(wbit(x, j) == (wbit(p0, j) || (j >= o && wbit(s, j - o))));
        if j >= o { if vx_k1 < msb@.len() { sbit_at(msb@, vx_k1 as int, j - o); } }
        if vx_k1 == 0 { sbit_at(lsb@, q, j); }
        else { if j < o { sbit_at(msb@, vx_k1 - 1, j - o + 64); } }
    }
}
//@ ghost loop 1 after
proof { concat_shifted(dst@, msb@, lsb@, lsb_width as int, vx_n1 as int); }
//@ fn not
//@ props C03
//@ requires
old(dst)@.len() == nw(width as int), source@.len() == old(dst)@.len(), width >= 1,
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|k: int| #[trigger] sbit(final(dst)@, k) == (0 <= k < width && !sbit(source@, k)),
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_n0 == dst@.len(),
    forall|i: int| 0 <= i < vx_i0 ==> dst@[i] == !source@[i],
//@ fn and
//@ props C03
//@ requires
a@.len() == old(dst)@.len(), b@.len() == old(dst)@.len(),
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|k: int| #[trigger] sbit(final(dst)@, k) == (sbit(a@, k) && sbit(b@, k)),
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_n0 == dst@.len(),
    forall|i: int| 0 <= i < vx_i0 ==> dst@[i] == a@[i] & b@[i],
//@ fn or
//@ props C03
//@ requires
a@.len() == old(dst)@.len(), b@.len() == old(dst)@.len(),
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|k: int| #[trigger] sbit(final(dst)@, k) == (sbit(a@, k) || sbit(b@, k)),
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_n0 == dst@.len(),
    forall|i: int| 0 <= i < vx_i0 ==> dst@[i] == a@[i] | b@[i],
//@ fn xor
//@ props C03
//@ requires
a@.len() == old(dst)@.len(), b@.len() == old(dst)@.len(),
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|k: int| #[trigger] sbit(final(dst)@, k) == (sbit(a@, k) != sbit(b@, k)),
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_n0 == dst@.len(),
    forall|i: int| 0 <= i < vx_i0 ==> dst@[i] == a@[i] ^ b@[i],
//@ fn adc
//@ props C02
//@ requires
carry <= 1,
//@ ensures
r <= 1,
*final(dst) + r * p2(64) == carry + a + b,
//@ ghost start
proof { w_split128((carry as int + a as int + b as int) as u128); p2_64(); }
//@ fn is_neg
//@ props C05 C06 C07
//@ requires
src@.len() == nw(width as int), width >= 1,
//@ ensures
r == sbit(src@, width - 1),
//@ ghost after-let msb_bit_id
proof { w_shr_bit(src@[src@.len() - 1], msb_bit_id); }
//@ fn add
//@ props C02
//@ requires
width >= 1, old(dst)@.len() == nw(width as int), a@.len() == old(dst)@.len(), b@.len() == old(dst)@.len(),
//@ ensures
final(dst)@.len() == old(dst)@.len(), wfw(final(dst)@, width as int),
val(final(dst)@) == (val(a@) + val(b@)) % p2(width as int),
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_n0 == dst@.len(), carry <= 1,
    vval(dst@, vx_i0 as int) + carry * p2(64 * vx_i0) == vval(a@, vx_i0 as int) + vval(b@, vx_i0 as int),
//@ ghost loop 0 before
proof { p2_64(); }
//@ ghost loop 0 start
let ghost d0 = dst@;
let ghost c0 = carry as int;
//@ ghost loop 0 end
proof {
    vval_step(d0, dst@, vx_k0 as int);
    p2_add(64 * vx_k0, 64);
    let p = p2(64 * vx_k0);
    let (x, y, z, c) = (dst@[vx_k0 as int] as int, a@[vx_k0 as int] as int, b@[vx_k0 as int] as int, carry as int);
    assert(x * p + c * (p * p2(64)) == c0 * p + y * p + z * p) by (nonlinear_arith) requires x + c * p2(64) == c0 + y + z;
}
//@ ghost before-call mask_msb
let ghost d1 = dst@;
//@ ghost end
proof { carry_mask(d1, dst@, carry as int, val(a@) + val(b@), width as int); }
//@ fn sub
//@ props C02
//@ requires
width >= 1, old(dst)@.len() == nw(width as int), a@.len() == old(dst)@.len(), b@.len() == old(dst)@.len(),
//@ ensures
final(dst)@.len() == old(dst)@.len(), wfw(final(dst)@, width as int),
val(final(dst)@) == (val(a@) - val(b@)) % p2(width as int),
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_n0 == dst@.len(), carry <= 1,
    vval(dst@, vx_i0 as int) + carry * p2(64 * vx_i0) == vval(a@, vx_i0 as int) - vval(b@, vx_i0 as int) + p2(64 * vx_i0),
//@ ghost loop 0 before
proof { p2_64(); }
//@ ghost loop 0 start
let ghost d0 = dst@;
let ghost c0 = carry as int;
//@ ghost loop 0 end
proof {
    vval_step(d0, dst@, vx_k0 as int);
    p2_add(64 * vx_k0, 64);
    let p = p2(64 * vx_k0);
    let (x, y, z, c) = (dst@[vx_k0 as int] as int, a@[vx_k0 as int] as int, b@[vx_k0 as int] as int, carry as int);
    w_not(b@[vx_k0 as int]);
    assert(x * p + c * (p * p2(64)) == c0 * p + y * p + p2(64) * p - p - z * p) by (nonlinear_arith) requires x + c * p2(64) == c0 + y + p2(64) - 1 - z;
    assert(p2(64) * p == p * p2(64)) by (nonlinear_arith);
}
//@ ghost before-call mask_msb
let ghost d1 = dst@;
//@ ghost end
proof {
    let n = 64 * dst@.len() as int;
    assert((carry as int - 1) * p2(n) == carry as int * p2(n) - p2(n)) by (nonlinear_arith);
    carry_mask(d1, dst@, carry as int - 1, val(a@) - val(b@), width as int);
}
//@ fn negate_in_place
//@ props C02
//@ requires
width >= 1, old(dst)@.len() == nw(width as int),
//@ ensures
final(dst)@.len() == old(dst)@.len(), wfw(final(dst)@, width as int),
val(final(dst)@) == (-val(old(dst)@)) % p2(width as int),
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_n0 == dst@.len(), carry <= 1,
    forall|i: int| vx_i0 <= i < dst@.len() ==> dst@[i] == old(dst)@[i],
    vval(dst@, vx_i0 as int) + carry * p2(64 * vx_i0) == p2(64 * vx_i0) - vval(old(dst)@, vx_i0 as int),
//@ ghost loop 0 before
proof { p2_64(); }
//@ ghost loop 0 start
let ghost d0 = dst@;
let ghost c0 = carry as int;
//@ ghost loop 0 end
proof {
    vval_step(d0, dst@, vx_k0 as int);
    p2_add(64 * vx_k0, 64);
    let p = p2(64 * vx_k0);
    let (x, z, c) = (dst@[vx_k0 as int] as int, old(dst)@[vx_k0 as int] as int, carry as int);
    w_not(old(dst)@[vx_k0 as int]);
    assert(x * p + c * (p * p2(64)) == c0 * p + p2(64) * p - p - z * p) by (nonlinear_arith) requires x + c * p2(64) == c0 + p2(64) - 1 - z;
    assert(p2(64) * p == p * p2(64)) by (nonlinear_arith);
}
//@ ghost before-call mask_msb
let ghost d1 = dst@;
//@ ghost end
proof {
    let n = 64 * dst@.len() as int;
    assert((carry as int - 1) * p2(n) == carry as int * p2(n) - p2(n)) by (nonlinear_arith);
    carry_mask(d1, dst@, carry as int - 1, -val(old(dst)@), width as int);
}
//@ fn negate
//@ props C02
//@ requires
width >= 1, old(dst)@.len() == nw(width as int), b@.len() == old(dst)@.len(),
//@ ensures
final(dst)@.len() == old(dst)@.len(), wfw(final(dst)@, width as int),
val(final(dst)@) == (-val(b@)) % p2(width as int),
//@ ghost before-call negate_in_place
proof { assert(dst@ =~= b@); }
//@ fn mul
//@ props C02
//@ requires
1 <= width <= 64, old(dst)@.len() == 1, a@.len() == 1, b@.len() == 1,
//@ ensures
final(dst)@.len() == old(dst)@.len(), wfw(final(dst)@, width as int),
val(final(dst)@) == (val(a@) * val(b@)) % p2(width as int),
//@ ghost start
proof { mul_one(a@, b@, width as int); }
//@ ghost end
proof { mul_mask(a@[0], b@[0], dst@, width); }
//@ fn get_shift_amount
//@ props C04
//@ requires
b@.len() >= 1,
//@ ensures
match r { Some(n) => n == val(b@) && n < width, None => val(b@) >= width },
//@ loop 0
    vx_n0 == b@.len() - 1,
    !vx_r0 == (exists|i: int| 1 <= i <= vx_i0 && b@[i] != 0),
//@ ghost after-let shift_amount
proof {
    if !msb_set { val_one_word(b@); } else { let i = choose|i: int| 1 <= i < b@.len() && b@[i] != 0; val_big(b@, i); }
}
//@ fn shift_right
//@ props C04
//@ requires
width >= 1, old(dst)@.len() == nw(width as int), a@.len() == old(dst)@.len(), b@.len() == old(dst)@.len(), wfw(a@, width as int),
//@ ensures
final(dst)@.len() == old(dst)@.len(),
match r { Some(n) => n == val(b@) && n < width, None => val(b@) >= width },
forall|k: int| #[trigger] sbit(final(dst)@, k) == (k >= 0 && sbit(a@, k + val(b@))),
//@ ghost start
proof { wf_bound(a@, width as int); }
//@ ghost after-call slice
proof {
    let sub = dst@.subrange(0, result_words as int);
    assert forall|k: int| #[trigger] sbit(dst@, k) == (k >= 0 && sbit(a@, k + val(b@))) by {
        if 0 <= k < 64 * result_words { assert(sbit(dst@, k) == sbit(sub, k)); }
    }
}
//@ fn arithmetic_shift_right
//@ props C04
//@ requires
width >= 1, old(dst)@.len() == nw(width as int), a@.len() == old(dst)@.len(), b@.len() == old(dst)@.len(), wfw(a@, width as int),
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|k: int| #[trigger] sbit(final(dst)@, k) == (0 <= k < width && (if k + val(b@) < width { sbit(a@, k + val(b@)) } else { sbit(a@, width - 1) })),
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_n0 == dst@.len(),
    forall|i: int| 0 <= i < vx_i0 ==> dst@[i] == u64::MAX,
//@ loop 1
    dst@.len() == old(dst)@.len(), vx_n1 == dst@.len() - msb_word - 1,
    forall|k: int| 0 <= k < 64 * (msb_word + 1 + vx_i1) ==> #[trigger] sbit(dst@, k) == (if k + amount < width { sbit(a@, k + amount) } else { true }),
//@ ghost after-let msb_word
let ghost d0 = dst@;
//@ ghost loop 1 before
proof {
    assert forall|k: int| 0 <= k < 64 * (msb_word + 1) implies #[trigger] sbit(dst@, k) == (if k + amount < width { sbit(a@, k + amount) } else { true }) by {
        assert(sbit(d0, k) == sbit(a@, k + amount));
        if k / 64 == msb_word {
            assert(wbit(dst@[msb_word as int], k % 64) == (wbit(d0[msb_word as int], k % 64) || k % 64 > local_msb));
        } else {
            assert(dst@[k / 64] == d0[k / 64]);
        }
    }
}
//@ ghost loop 1 start
let ghost d1 = dst@;
//@ ghost loop 1 end
proof {
    assert forall|k: int| 0 <= k < 64 * (msb_word + 1 + vx_i1) implies #[trigger] sbit(dst@, k) == (if k + amount < width { sbit(a@, k + amount) } else { true }) by {
        if k < 64 * (msb_word + 1 + vx_k1) {
            assert(sbit(d1, k) == sbit(dst@, k));
        }
    }
}
//@ fn shift_left
//@ props C04
//@ requires
width >= 1, old(dst)@.len() == nw(width as int), a@.len() == old(dst)@.len(), b@.len() == old(dst)@.len(), wfw(a@, width as int),
//@ ensures
final(dst)@.len() == old(dst)@.len(),
forall|k: int| #[trigger] sbit(final(dst)@, k) == (k < width && k >= val(b@) && sbit(a@, k - val(b@))),
//@ loop 0
    dst@.len() == old(dst)@.len(), vx_n0 == dst@.len(), vx_s1 == shift_words,
    prev == if vx_i0 <= vx_s1 || shift_left == 0 { 0 } else { a@[vx_i0 - vx_s1 - 1] >> shift_right },
    forall|i: int, j: int| 0 <= i < vx_i0 && 0 <= j < 64 ==> #[trigger] wbit(dst@[i], j) == sbit(a@, 64 * i + j - shift_amount),
//@ ghost loop 0 end
proof {
    assert forall|j: int| 0 <= j < 64 implies #[trigger] wbit(dst@[vx_k0 as int], j) == sbit(a@, 64 * vx_k0 + j - shift_amount) by {
        if vx_k0 >= vx_s1 {
            let q = vx_k0 - vx_s1;
            assert(64 * vx_k0 + j - shift_amount == 64 * q + j - shift_left);
        }
    }
}
//@ ghost loop 0 start
proof { if shift_left != 0 { w_zero_shr(shift_right); } }
//@ fn cmp_equal
//@ props C06
//@ requires
a@.len() == b@.len(),
//@ ensures
r == (a@ == b@),
//@ loop 0
    vx_n0 == a@.len(),
    vx_r0 == (forall|i: int| 0 <= i < vx_i0 ==> a@[i] == b@[i]),
//@ ghost end
proof { if vx_ret { assert(a@ =~= b@); } }
//@ fn is_greater_and_not_less
//@ props C06
//@ requires
a@.len() == b@.len(),
//@ ensures
match r { Some(true) => val(a@) > val(b@), Some(false) => val(a@) < val(b@), None => val(a@) == val(b@) },
//@ loop 0
    vx_n0 == a@.len(),
    forall|i: int| a@.len() - vx_i0 <= i < a@.len() ==> a@[i] == b@[i],
//@ ghost loop 0 start
proof {
    let i = a@.len() - 1 - vx_k0;
    if a@[i] < b@[i] { vval_less(a@, b@, i, a@.len() as int); }
    if a@[i] > b@[i] { vval_less(b@, a@, i, a@.len() as int); }
}
//@ ghost end
proof { vval_ext(a@, b@, a@.len() as int); }
//@ fn cmp_greater
//@ props C06
//@ requires
a@.len() == b@.len(),
//@ ensures
r == (val(a@) > val(b@)),
//@ fn cmp_greater_equal
//@ props C06
//@ requires
a@.len() == b@.len(),
//@ ensures
r == (val(a@) >= val(b@)),
//@ fn cmp_greater_signed
//@ props C06
//@ requires
width >= 1, wfw(a@, width as int), wfw(b@, width as int),
//@ ensures
r == (sval(a@, width as int) > sval(b@, width as int)),
//@ ghost start
proof { sign_half(a@, width as int); sign_half(b@, width as int); }
//@ fn cmp_greater_equal_signed
//@ props C06
//@ requires
width >= 1, wfw(a@, width as int), wfw(b@, width as int),
//@ ensures
r == (sval(a@, width as int) >= sval(b@, width as int)),
//@ ghost start
proof { sign_half(a@, width as int); sign_half(b@, width as int); }
//@ fn word_to_bool
//@ props C07 C15
//@ ensures
r == wbit(value, 0),
//@ ghost start
proof { assert(value >> 0u64 == value) by (bit_vector); }
