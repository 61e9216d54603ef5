//@ rename-method strip_prefix/1 => vx_strip_prefix
//@ rename-method starts_with/1 => vx_starts_with
//@ rename-path Vec::from => vx_vec_from
//@ module bv::io::strings
//@ fn select_words_for_width
//@ props C09
//@ requires
words@.len() >= nw(width as int),
//@ ensures
r@ == words@.subrange(0, nw(width as int)),
//@ fn to_bit_str_internal
//@ props C09
//@ requires
values@.len() == nw(width as int), width == 0 ==> out@.len() == 0,
//@ ensures
r@ == out@ + bit_text(values@, width as int),
//@ ghost start
let ghost o0 = out@;
let ghost w = width as int;
let ghost t = bit_text(values@, w);
proof { reveal_strlit(""); }
//@ loop 0
out@ == o0 + t.subrange(0, vx_i0 as int),
//@ ghost loop 0 end
proof {
    let i = vx_i0 - 1;
    assert(w - 1 - i == 64 * (values@.len() - 1) + ii);
    assert((w - 1 - i) / 64 == values@.len() - 1 && (w - 1 - i) % 64 == ii);
    w_shr_bit(values@[values@.len() - 1], ii);
    assert(t[i] == bit_char(values@, w - 1 - i));
    assert(t.subrange(0, vx_i0 as int) =~= t.subrange(0, i).push(t[i]));
    assert(out@ =~= o0 + t.subrange(0, vx_i0 as int));
}
//@ loop 1
out@ == o0 + t.subrange(0, start_bit + 1 + 64 * vx_i1),
//@ loop 2
out@ == o0 + t.subrange(0, start_bit + 1 + 64 * (vx_i1 - 1) + vx_i2),
//@ ghost loop 2 end
proof {
    let i = start_bit + 1 + 64 * (vx_i1 - 1) + vx_i2 - 1;
    let j = values@.len() - 1 - vx_i1;
    assert(w - 1 - i == 64 * j + ii);
    assert((w - 1 - i) / 64 == j && (w - 1 - i) % 64 == ii);
    w_shr_bit(values@[j], ii);
    assert(t[i] == bit_char(values@, w - 1 - i));
    assert(t.subrange(0, i + 1) =~= t.subrange(0, i).push(t[i]));
    assert(out@ =~= o0 + t.subrange(0, i + 1));
}
//@ ghost end
proof { assert(t.subrange(0, w) =~= t); }
//@ fn to_bit_str
//@ props C09
//@ requires
values@.len() == nw(width as int),
//@ ensures
r@ == num_text(val(values@), 2, width as int),
//@ ghost end
proof { bit_text_num(values@, width as int); assert(Seq::<char>::empty() + vx_ret@ =~= vx_ret@); assert(vx_ret@ =~= bit_text(values@, width as int)); }
//@ fn to_bit_str_signed
//@ props C09
//@ requires
width >= 1, wfw(values@, width as int),
//@ ensures
denotes(r@, 2, sval(values@, width as int)),
//@ ghost after-let copy
let ghost c0 = copy@;
//@ ghost after-let digits
proof {
    neg_mag(values@, copy@, width as int);
    sub_val(copy@, digits as int);
    text_bound(val(copy@), digits as int, 1, digits as int);
    bit_text_num(copy@.subrange(0, nw(digits as int)), digits as int);
}
//@ ghost end
proof {
    let (s, w) = (values@, width as int);
    sign_half(s, w);
    if sbit(s, w - 1) {
        let n = if exists|n: int| denotes_n(vx_ret@, 2, sval(s, w), n) { 0int } else { 1 };
        assert(denotes_n(vx_ret@, 2, sval(s, w), w) || denotes_n(vx_ret@, 2, sval(s, w), w - 1)) by { reveal_with_fuel(num_text, 1); };
    } else {
        sub_val(s, w - 1);
        text_bound(val(s), w - 1, 1, w - 1);
        assert(denotes_n(vx_ret@, 2, sval(s, w), w - 1));
    }
}
//@ fn to_hex_str_internal
//@ props C09
//@ requires
values@.len() == nw(width as int), width == 0 ==> out@.len() == 0,
//@ ensures
r@ == out@ + hex_text(values@, (width as int + 3) / 4),
//@ ghost start
let ghost o0 = out@;
let ghost n = (width as int + 3) / 4;
let ghost t = hex_text(values@, n);
proof { reveal_strlit(""); hex_count(width as int); }
//@ loop 0
out@ == o0 + t.subrange(0, vx_i0 as int),
//@ ghost loop 0 start
proof { hex_place(values@, n, vx_i0 - 1, values@.len() - 1, (digits_in_msb - vx_i0) as u32); }
//@ ghost loop 0 end
proof { text_push(o0, t, vx_i0 - 1, out@); }
//@ loop 1
out@ == o0 + t.subrange(0, digits_in_msb + 16 * vx_i1),
//@ loop 2
out@ == o0 + t.subrange(0, digits_in_msb + 16 * (vx_i1 - 1) + vx_i2),
//@ ghost loop 2 start
proof { hex_place(values@, n, digits_in_msb + 16 * (vx_i1 - 1) + vx_i2 - 1, values@.len() - skip_num - vx_i1, (16 - vx_i2) as u32); }
//@ ghost loop 2 end
proof { text_push(o0, t, digits_in_msb + 16 * (vx_i1 - 1) + vx_i2 - 1, out@); }
//@ ghost end
proof { assert(t.subrange(0, n) =~= t); }
//@ fn to_hex_str
//@ props C09
//@ requires
values@.len() == nw(width as int),
//@ ensures
r@ == num_text(val(values@), 16, (width as int + 3) / 4),
//@ ghost end
proof { hex_text_num(values@, (width as int + 3) / 4); assert(vx_ret@ =~= hex_text(values@, (width as int + 3) / 4)); }
//@ fn to_hex_str_signed
//@ props C09
//@ requires
width >= 1, wfw(values@, width as int),
//@ ensures
denotes(r@, 16, sval(values@, width as int)),
//@ ghost after-let digits
proof {
    neg_mag(values@, copy@, width as int);
    sub_val(copy@, digits as int);
    text_bound(val(copy@), digits as int, 4, (digits + 3) / 4);
    hex_text_num(copy@.subrange(0, nw(digits as int)), (digits + 3) / 4);
}
//@ ghost end
proof {
    let (s, w) = (values@, width as int);
    sign_half(s, w);
    if sbit(s, w - 1) {
        assert(denotes_n(vx_ret@, 16, sval(s, w), (w + 3) / 4) || denotes_n(vx_ret@, 16, sval(s, w), (w - 1 + 3) / 4));
    } else {
        sub_val(s, w - 1);
        text_bound(val(s), w - 1, 4, (w - 1 + 3) / 4);
        assert(denotes_n(vx_ret@, 16, sval(s, w), (w - 1 + 3) / 4));
    }
}
//@ fn words_used
//@ props C09
//@ ensures
r <= words@.len(), r > 0 ==> words@[r - 1] != 0, forall|i: int| r <= i < words@.len() ==> #[trigger] words@[i] == 0,
//@ loop 0
len == words@.len() - vx_i0, len <= words@.len(), forall|i: int| len <= i < words@.len() ==> #[trigger] words@[i] == 0,
//@ fn words_to_u128
//@ props C09
//@ requires
words@.len() >= 2,
//@ ensures
r == words@[1] * 0x1_0000_0000_0000_0000 + words@[0],
//@ ghost start
proof {
    let (x, y) = (words@[0], words@[1]);
    assert(((y as u128) << 64u32) | x as u128 == (y as u128) * 0x1_0000_0000_0000_0000u128 + x as u128) by (bit_vector);
    assert((y as u128) << 64u32 == (y as u128) * 0x1_0000_0000_0000_0000u128) by (bit_vector);
}
//@ fn to_dec_str_internal
//@ props C09
//@ requires
val(values@) < p2(128),
//@ ensures
r@ == out@ + dec_text(val(values@)),
//@ ghost start
let ghost o0 = out@;
//@ ghost after-let words_used
proof {
    let n = words_used as int;
    let s = values@;
    p2_64();
    p2_add(64, 64);
    if n > 2 { val_ge(s, n - 1, s.len() as int); p2_le(128, 64 * (n - 1)); }
    if n == 0 { val_zero(s); }
    if n == 1 { val_one_word(s); }
    if n == 2 { two_words(s); }
}
//@ ghost end
proof { assert(dchar(0) == '0'); assert(dec_text(0) =~= seq!['0']); assert(vx_ret@ =~= o0 + dec_text(val(values@))); }
//@ fn to_dec_str
//@ props C09
//@ requires
val(values@) < p2(128),
//@ ensures
r@ == dec_text(val(values@)),
//@ ghost end
proof { assert(Seq::<char>::empty() + dec_text(val(values@)) =~= dec_text(val(values@))); }
