//@ module bv::io::strings
//@ fn determine_width_from_str_radix
//@ props C10
//@ requires
radix == 2 || radix == 16, sb(value).len() < 0x2000_0000,
//@ ensures
r == text_width(sb(value), radix as int),
//@ fn hex_digit_value
//@ props C10
//@ ensures
r is Ok <==> dval(digit) < 16, r is Ok ==> r->Ok_0 == dval(digit),
//@ fn strip_leading_zeros
//@ props C10
//@ ensures
r@.len() <= digits@.len(), r@ == digits@.subrange(digits@.len() - r@.len(), digits@.len() as int), r@.len() > 0 ==> r@[0] != 48,
forall|i: int| 0 <= i < digits@.len() - r@.len() ==> #[trigger] digits@[i] == 48,
//@ loop 0
invariant zeros <= digits@.len(), forall|i: int| 0 <= i < zeros ==> #[trigger] digits@[i] == 48,
decreases digits@.len() - zeros,
//@ fn parse_base_2
//@ props C10 C01
//@ requires
max_width >= 1, old(out)@.len() == nw(max_width as int), digits@.len() < 0x2000_0000,
//@ ensures
final(out)@.len() == old(out)@.len(), wfw(final(out)@, max_width as int),
r is Ok <==> all_digits(digits@, 2) && tval(digits@, 2) < p2(max_width as int),
r is Ok ==> val(final(out)@) == tval(digits@, 2),
//@ ghost start
let ghost p0 = digits@;
//@ ghost after-call clear
proof {
    p2_64(); val_zero(out@); p2_pos(max_width as int);
    assert forall|k: int| !#[trigger] sbit(out@, k) by { if 0 <= k < 64 * out@.len() { assert(out@[k / 64] == 0); } }
}
//@ ghost after-let digits
let ghost d = digits@;
let ghost n = d.len() as int;
let ghost m = max_width as int;
proof {
    tval_zeros(p0, p0.len() - n, 2);
    if n == 0 { assert(tval(d, 2) == 0); }
    else if all_digits(d, 2) {
        assert(dval(d[0]) == 1);
        tval_lead(d, 1, 0);
        if n > m { p2_le(m, n - 1); } else { p2_le(n, m); }
    }
}
//@ loop 0
out@.len() == nw(m), d == digits@, d.len() == n, out_ii < out@.len(),
forall|i: int| 0 <= i < vx_i0 ==> dval(#[trigger] d[i]) < 2,
64 * out_ii <= (n - vx_i0), (n - vx_i0) <= 64 * (out_ii + 1), vx_i0 == 0 ==> 64 * out_ii < (n - vx_i0), vx_i0 > 0 ==> (n - vx_i0) < 64 * (out_ii + 1),
forall|k: int| #[trigger] sbit(out@, k) == (64 * (out_ii + 1) <= k && dbit(d, 1, k)),
forall|j: int| 0 <= j ==> #[trigger] wbit(word, j) == ((n - vx_i0) + j < 64 * (out_ii + 1) && dbit(d, 1, (n - vx_i0) + j)),
//@ ghost loop 0 start
let ghost w1 = word;
//@ ghost after-let ii_rev
proof {
    let i = ii as int;
    if (n - i) == 64 * out_ii {
        let u = out@.update(out_ii as int, word);
        assert forall|k: int| #[trigger] sbit(u, k) == (64 * out_ii <= k && dbit(d, 1, k)) by {
            if 0 <= k < 64 * u.len() {
                assert(sbit(out@, k) == (64 * (out_ii + 1) <= k && dbit(d, 1, k)));
                if k / 64 == out_ii {
                    assert(wbit(word, k % 64) == (64 * out_ii + k % 64 < 64 * (out_ii + 1) && dbit(d, 1, 64 * out_ii + k % 64)));
                    assert(64 * out_ii + k % 64 == k);
                }
            } else if k >= 0 { assert(sbit(out@, k) == (64 * (out_ii + 1) <= k && dbit(d, 1, k))); }
        }
    }
}
//@ ghost after-let value
let ghost w2 = word;
let ghost i = ii as int;
//@ ghost loop 0 end
proof {
    assert(dval(d[i]) == value);
    assert forall|j: int| 0 <= j implies #[trigger] wbit(word, j) == ((n - vx_i0) + j < 64 * (out_ii + 1) && dbit(d, 1, (n - vx_i0) + j)) by {
        if j < 1 {
            let q = (n - vx_i0) + j;
            assert(q / 1 == n - vx_i0 && q % 1 == j);
            assert(dbit(d, 1, q) == nbit(dval(d[n - 1 - (n - vx_i0)]), j));
            w_nbit(value as u64, j);
        } else {
            if j < 64 { assert(wbit(w2, j - 1) == ((n - i) + (j - 1) < 64 * (out_ii + 1) && dbit(d, 1, (n - i) + (j - 1)))); }
            assert(!wbit(value as u64, j)) by { if j < 64 { w_nbit(value as u64, j); nbit_high(value as int, 1, j); } }
        }
    }
}
//@ ghost loop 0 after
proof {
    let u = out@.update(0, word);
    assert forall|k: int| #[trigger] sbit(u, k) == dbit(d, 1, k) by {
        assert(sbit(out@, k) == (64 <= k && dbit(d, 1, k)));
        if 0 <= k < 64 { assert(wbit(word, k) == (0 + k < 64 && dbit(d, 1, 0 + k))); }
        else if k < 64 * u.len() { assert(out@[k / 64] == u[k / 64]); }
    }
    tval_words(d, 1, u);
}
//@ fn parse_base_16
//@ props C10 C01
//@ requires
max_width >= 1, old(out)@.len() == nw(max_width as int), digits@.len() < 0x2000_0000,
//@ ensures
final(out)@.len() == old(out)@.len(), wfw(final(out)@, max_width as int),
r is Ok <==> all_digits(digits@, 16) && tval(digits@, 16) < p2(max_width as int),
r is Ok ==> val(final(out)@) == tval(digits@, 16),
//@ ghost start
let ghost p0 = digits@;
//@ ghost after-call clear
proof {
    p2_64(); val_zero(out@); p2_pos(max_width as int);
    assert forall|k: int| !#[trigger] sbit(out@, k) by { if 0 <= k < 64 * out@.len() { assert(out@[k / 64] == 0); } }
}
//@ ghost after-let digits
let ghost d = digits@;
let ghost n = d.len() as int;
let ghost m = max_width as int;
proof {
    tval_zeros(p0, p0.len() - n, 16);
    if n == 0 { assert(tval(d, 16) == 0); }
    else {
        let (f, c) = (dval(d[0]), d[0]);
        if f < 16 {
            assert(f > 0);
            let l = if f >= 8 { 3int } else if f >= 4 { 2 } else if f >= 2 { 1 } else { 0int };
            assert(p2(2) == 4 && p2(3) == 8) by { p2_succ(1); p2_succ(2); }
            clz8(f as u8, l);
            let k = 4 * (n - 1) + l;
            if all_digits(d, 16) { tval_lead(d, 4, l); }
            if k + 1 > m { p2_le(m, k); } else { p2_le(k + 1, m); }
        }
    }
}
//@ ghost after-let width
let ghost lead = (width - 1 - 4 * (n - 1)) as int;
proof {
    assert(0 <= lead < 4 && p2(lead) <= dval(d[0]) < p2(lead + 1));
    if width <= m {
        assert forall|k: int| m <= k implies !#[trigger] dbit(d, 4, k) by {
            if k < 4 * n { assert(k / 4 == n - 1 && k % 4 >= lead + 1); nbit_high(dval(d[0]), lead + 1, k % 4); }
        }
    }
}
//@ loop 0
out@.len() == nw(m), d == digits@, d.len() == n, out_ii < out@.len(),
forall|i: int| 0 <= i < vx_i0 ==> dval(#[trigger] d[i]) < 16,
64 * out_ii <= 4 * (n - vx_i0), 4 * (n - vx_i0) <= 64 * (out_ii + 1), vx_i0 == 0 ==> 64 * out_ii < 4 * (n - vx_i0), vx_i0 > 0 ==> 4 * (n - vx_i0) < 64 * (out_ii + 1),
forall|k: int| #[trigger] sbit(out@, k) == (64 * (out_ii + 1) <= k && dbit(d, 4, k)),
forall|j: int| 0 <= j ==> #[trigger] wbit(word, j) == (4 * (n - vx_i0) + j < 64 * (out_ii + 1) && dbit(d, 4, 4 * (n - vx_i0) + j)),
//@ ghost loop 0 start
let ghost w1 = word;
//@ ghost after-let ii_rev
proof {
    let i = ii as int;
    let q = (n - i) / 16;
    assert(n - i == 16 * q + (n - i) % 16);
    assert(ii_rev + 1 == n - i);
    if i > 0 { assert(16 * out_ii <= n - i < 16 * (out_ii + 1)); assert(q == out_ii); }
    if 4 * (n - i) == 64 * out_ii {
        let u = out@.update(out_ii as int, word);
        assert forall|k: int| #[trigger] sbit(u, k) == (64 * out_ii <= k && dbit(d, 4, k)) by {
            if 0 <= k < 64 * u.len() {
                assert(sbit(out@, k) == (64 * (out_ii + 1) <= k && dbit(d, 4, k)));
                if k / 64 == out_ii {
                    assert(wbit(word, k % 64) == (64 * out_ii + k % 64 < 64 * (out_ii + 1) && dbit(d, 4, 64 * out_ii + k % 64)));
                    assert(64 * out_ii + k % 64 == k);
                }
            } else if k >= 0 { assert(sbit(out@, k) == (64 * (out_ii + 1) <= k && dbit(d, 4, k))); }
        }
    }
}
//@ ghost after-let value
let ghost w2 = word;
let ghost i = ii as int;
//@ ghost loop 0 end
proof {
    assert(dval(d[i]) == value);
    assert forall|j: int| 0 <= j implies #[trigger] wbit(word, j) == (4 * (n - vx_i0) + j < 64 * (out_ii + 1) && dbit(d, 4, 4 * (n - vx_i0) + j)) by {
        if j < 4 {
            let q = 4 * (n - vx_i0) + j;
            assert(q / 4 == n - vx_i0 && q % 4 == j);
            assert(dbit(d, 4, q) == nbit(dval(d[n - 1 - (n - vx_i0)]), j));
            w_nbit(value as u64, j);
        } else {
            if j < 64 { assert(wbit(w2, j - 4) == (4 * (n - i) + (j - 4) < 64 * (out_ii + 1) && dbit(d, 4, 4 * (n - i) + (j - 4)))); }
            assert(!wbit(value as u64, j)) by { if j < 64 { w_nbit(value as u64, j); nbit_high(value as int, 4, j); } }
        }
    }
}
//@ ghost loop 0 after
proof {
    let u = out@.update(0, word);
    assert forall|k: int| #[trigger] sbit(u, k) == dbit(d, 4, k) by {
        assert(sbit(out@, k) == (64 <= k && dbit(d, 4, k)));
        if 0 <= k < 64 { assert(wbit(word, k) == (0 + k < 64 && dbit(d, 4, 0 + k))); }
        else if k < 64 * u.len() { assert(out@[k / 64] == u[k / 64]); }
    }
    tval_words(d, 4, u);
}
//@ fn parse_base_10
//@ requires
false,
//@ fn from_str_radix
//@ props C10 C01
//@ requires
radix == 2 || radix == 16 || (radix == 10 && width <= 128), wfw(old(out)@, width as int), sb(value).len() < 0x2000_0000,
//@ ensures
final(out)@.len() == old(out)@.len(), wfw(final(out)@, width as int),
sb(value).len() == 0 ==> r is Ok,
sb(value).len() > 0 && width >= 1 ==> (r is Ok <==> num_parses(sb(value), radix as int, width as int)),
sb(value).len() > 0 && width >= 1 && r is Ok ==> val(final(out)@) == num_val(sb(value), radix as int, width as int),
//@ ghost start
let ghost b0 = sb(value);
let ghost nn = num_digits(b0);
let ghost w = width as int;
let ghost o0 = out@;
proof {
    p2_64(); p2_add(64, 64);
    p2_pos(w);
    assert(is_mask(u64::MAX, 0)) by { assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(u64::MAX, k) by { w_max(k); } }
    if w >= 1 { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(-tval(nn, radix as int), p2(w)); }
    if o0.len() == 1 {
        assert(o0.update(0, o0[0]) =~= o0);
        assert forall|x: u64| val(#[trigger] o0.update(0, x)) == x && (x < p2(w) ==> wfw(o0.update(0, x), w)) by {
            val_one_word(o0.update(0, x));
            if x < p2(w) { wf_from_bound(o0.update(0, x), w); }
        }
    }
    if o0.len() == 2 {
        let (a, b) = (o0.subrange(0, 1), o0.subrange(1, 2));
        assert(a.update(0, a[0]) =~= a && b.update(0, b[0]) =~= b);
        assert(a + b =~= o0);
        assert forall|x: u64, y: u64| val(#[trigger] (a.update(0, x) + b.update(0, y))) == x + y * 0x1_0000_0000_0000_0000 && (x + y * 0x1_0000_0000_0000_0000 < p2(w) ==> wfw(a.update(0, x) + b.update(0, y), w)) by {
            let c = a.update(0, x) + b.update(0, y);
            assert(c[0] == x && c[1] == y && c.len() == 2);
            two_words(c);
            if x + y * 0x1_0000_0000_0000_0000 < p2(w) { wf_from_bound(c, w); }
        }
    }
    if 1 <= w <= 64 { mask_is(width); if w == 64 { assert(p2(w) - 1 == u64::MAX); } }
    if 64 < w < 128 { mask_is((w - 64) as u32); p2_add(64, w - 64); }
}
//@ ghost after-let value
proof {
    assert(sb(value) == no_minus(b0));
    if nn.len() > 0 { tval_nonneg(nn, radix as int); }
}
//@ ghost after-let out 1
proof {
    let v = out;
    w_split128(v);
    let (hi, lo) = ((v >> 64u32) as u64, v as u64);
    if w < 128 {
        let q = p2(w - 64);
        p2_pos(w - 64);
        assert(p2(w) == q * 0x1_0000_0000_0000_0000);
        if hi <= q - 1 { assert(v < p2(w)) by (nonlinear_arith) requires v == hi * 0x1_0000_0000_0000_0000 + lo, hi <= q - 1, lo < 0x1_0000_0000_0000_0000, p2(w) == q * 0x1_0000_0000_0000_0000; }
        else { assert(v >= p2(w)) by (nonlinear_arith) requires v == hi * 0x1_0000_0000_0000_0000 + lo, hi >= q, lo >= 0, p2(w) == q * 0x1_0000_0000_0000_0000; }
    }
}
//@ module bv::ops
//@ fn BitVecOps::to_bit_str
//@ props C09
//@ requires
wfw(self.ss(), self.sw() as int),
//@ ensures
r@ == num_text(val(self.ss()), 2, self.sw() as int),
//@ fn BitVecOps::to_bit_str_signed
//@ props C09
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int),
//@ ensures
denotes(r@, 2, sval(self.ss(), self.sw() as int)),
//@ fn BitVecOps::to_hex_str
//@ props C09
//@ requires
wfw(self.ss(), self.sw() as int),
//@ ensures
r@ == num_text(val(self.ss()), 16, (self.sw() as int + 3) / 4),
//@ fn BitVecOps::to_hex_str_signed
//@ props C09
//@ requires
self.sw() >= 1, wfw(self.ss(), self.sw() as int),
//@ ensures
denotes(r@, 16, sval(self.ss(), self.sw() as int)),
//@ fn BitVecOps::to_dec_str
//@ props C09
//@ requires
wfw(self.ss(), self.sw() as int), val(self.ss()) < p2(128),
//@ ensures
r@ == dec_text(val(self.ss())),
//@ fn BitVecMutOps::assign_from_str_radix
//@ props C10 C01 C22
//@ requires
radix == 2 || radix == 16 || (radix == 10 && old(self).sw() <= 128), wfw(old(self).ss(), old(self).sw() as int), sb(value).len() < 0x2000_0000,
//@ ensures
final(self).sw() == old(self).sw(), wfw(final(self).ss(), final(self).sw() as int),
sb(value).len() == 0 ==> r is Ok,
sb(value).len() > 0 && old(self).sw() >= 1 ==> (r is Ok <==> num_parses(sb(value), radix as int, old(self).sw() as int)),
sb(value).len() > 0 && old(self).sw() >= 1 && r is Ok ==> val(final(self).ss()) == num_val(sb(value), radix as int, old(self).sw() as int),
//@ module bv::owned
//@ fn BitVecValue::from_str_radix
//@ props C10 C01
//@ requires
radix == 2 || radix == 16 || (radix == 10 && width <= 128), sb(value).len() < 0x2000_0000,
//@ ensures
r is Ok ==> r->Ok_0.width == width && wfw(r->Ok_0.words@, width as int),
sb(value).len() == 0 ==> r is Ok,
sb(value).len() > 0 && width >= 1 ==> (r is Ok <==> num_parses(sb(value), radix as int, width as int)),
sb(value).len() > 0 && width >= 1 && r is Ok ==> val(r->Ok_0.words@) == num_val(sb(value), radix as int, width as int),
//@ fn BitVecValue::from_bit_str
//@ props C10 C01
//@ requires
sb(value).len() < 0x2000_0000,
//@ ensures
parsed_to(value, r, 2, text_width(sb(value), 2)),
//@ fn BitVecValue::from_hex_str
//@ props C10 C01
//@ requires
sb(value).len() < 0x2000_0000,
//@ ensures
parsed_to(value, r, 16, text_width(sb(value), 16)),
//@ mod bv::owned
pub open spec fn parsed_to(value: &str, r: Result<BitVecValue, crate::bv::io::strings::ParseIntError>, radix: int, w: int) -> bool {
    &&& r is Ok ==> r->Ok_0.width == w && wfw(r->Ok_0.words@, w)
    &&& sb(value).len() > 0 && w >= 1 ==> (r is Ok <==> num_parses(sb(value), radix, w))
    &&& sb(value).len() > 0 && w >= 1 && r is Ok ==> val(r->Ok_0.words@) == num_val(sb(value), radix, w)
}
