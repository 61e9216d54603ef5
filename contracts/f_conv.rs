// ---------------------------------------------------------------------------------------------
// Conversions from and to machine integers.
// ---------------------------------------------------------------------------------------------
pub proof fn val_word(s: Seq<u64>, i: int)
    requires 0 <= i < s.len(), s[i] != 0,
    ensures val(s) > 0, i >= 1 ==> val(s) >= 0x1_0000_0000_0000_0000,
{
    let z = s.update(i, 0);
    vval_less(z, s, i, s.len() as int);
    vval_bound(z, s.len() as int);
    if i >= 1 {
        let t = seq![0u64, 1u64];
        let u = Seq::new(s.len(), |j: int| if j == 1 { 1u64 } else { 0u64 });
        p2_64();
        w_some_bit(s[i]);
        let k = choose|k: int| 0 <= k < 64 && #[trigger] wbit(s[i], k);
        assert((64 * i + k) / 64 == i && (64 * i + k) % 64 == k);
        assert(sbit(s, 64 * i + k));
        val_bit(s, 64 * i + k);
        vval_bound(s, s.len() as int);
        if val(s) < 0x1_0000_0000_0000_0000 { nbit_high(val(s), 64, 64 * i + k); }
    }
}
pub proof fn w_some_bit(x: u64)
    requires x != 0,
    ensures exists|k: int| 0 <= k < 64 && #[trigger] wbit(x, k),
{
    if forall|k: int| 0 <= k < 64 ==> !#[trigger] wbit(x, k) {
        assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(x, k) == wbit(0u64, k) by {
            let n = k as u64;
            assert((0u64 >> n) & 1 == 0) by (bit_vector) requires n < 64;
        }
        w_ext(x, 0u64);
    }
}
pub proof fn bit_val(s: Seq<u64>, k: int)
    requires sbit(s, k),
    ensures val(s) >= p2(k),
{
    vval_bound(s, s.len() as int);
    val_bit(s, k);
    if val(s) < p2(k) { nbit_high(val(s), k, k); }
}
pub proof fn i64_sval(y: u64)
    ensures sval(seq![y], 64) == y as i64, val(seq![y]) == y, wfw(seq![y], 64),
{
    let s = seq![y];
    val_one_word(s);
    p2_64();
    assert(wfw(s, 64));
    sign_half(s, 64);
    assert(y >= 0x8000_0000_0000_0000u64 ==> (y as i64) as i128 == sub(y as i128, 0x1_0000_0000_0000_0000i128)) by (bit_vector);
    assert(y < 0x8000_0000_0000_0000u64 ==> (y as i64) as i128 == y as i128) by (bit_vector);
}
/// all bits from 63 on are copies of the sign
pub proof fn i64_fits(s: Seq<u64>, w: int, y: u64)
    requires w >= 1, wfw(s, w),
        w >= 64 ==> s[0] == y && forall|k: int| 63 <= k < w ==> #[trigger] sbit(s, k) == sbit(s, w - 1),
        w < 64 ==> forall|k: int| 0 <= k < 64 ==> #[trigger] wbit(y, k) == (if k < w { sbit(s, k) } else { sbit(s, w - 1) }),
    ensures sval(s, w) == y as i64,
{
    let t = seq![y];
    i64_sval(y);
    if w >= 64 {
        assert forall|k: int| #[trigger] sbit(s, k) == (if k < 64 { sbit(t, k) } else { k < w && sbit(t, 63) }) by {
            assert(sbit(t, 63) == sbit(s, 63));
            if 0 <= k < 64 { assert(sbit(t, k) == wbit(t[0], k)); assert(sbit(s, k) == wbit(s[0], k)); }
        }
        sext_val(t, s, 64, w);
    } else {
        assert forall|k: int| #[trigger] sbit(t, k) == (if k < w { sbit(s, k) } else { k < 64 && sbit(s, w - 1) }) by {
            if 0 <= k < 64 { assert(sbit(t, k) == wbit(t[0], k)); }
        }
        sext_val(s, t, w, 64);
    }
}
pub proof fn i64_unfit(s: Seq<u64>, w: int, k: int)
    requires 63 <= k < w, wfw(s, w), sbit(s, k) != sbit(s, w - 1),
    ensures !(i64::MIN <= sval(s, w) <= i64::MAX),
{
    p2_64();
    p2_le(63, k);
    sign_half(s, w);
    if sbit(s, k) {
        bit_val(s, k);
    } else {
        let x = p2(w) - 1 - val(s);
        not_bits(val(s), w, k);
        val_bit(s, k);
        assert(nbit(x, k));
        if x < p2(k) { nbit_high(x, k, k); }
    }
}

pub proof fn w_max(k: int)
    requires 0 <= k < 64,
    ensures wbit(u64::MAX, k),
{
    let n = k as u64;
    assert((0xffff_ffff_ffff_ffffu64 >> n) & 1 == 1) by (bit_vector) requires n < 64;
}
pub proof fn w_zerobit(k: int)
    ensures !wbit(0, k),
{
    if 0 <= k < 64 { let n = k as u64; assert((0u64 >> n) & 1 == 0) by (bit_vector) requires n < 64; }
}
/// all bits of the top word up to the width are set
pub proof fn lemma_top_mask(s: Seq<u64>, w: int)
    requires w > 64, wfw(s, w), forall|k: int| 64 <= k < w ==> #[trigger] sbit(s, k),
    ensures forall|i: int| 1 <= i < s.len() - 1 ==> #[trigger] s[i] == u64::MAX,
        forall|k: int| 0 <= k < 64 ==> #[trigger] wbit(s[s.len() - 1], k) == (w % 64 == 0 || k < w % 64),
{
    assert forall|i: int| 1 <= i < s.len() - 1 implies #[trigger] s[i] == u64::MAX by {
        assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(s[i], k) == wbit(u64::MAX, k) by {
            w_max(k);
            assert((64 * i + k) / 64 == i && (64 * i + k) % 64 == k);
            assert(sbit(s, 64 * i + k));
        }
        w_ext(s[i], u64::MAX);
    }
    let n = s.len() - 1;
    assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(s[n], k) == (w % 64 == 0 || k < w % 64) by {
        assert((64 * n + k) / 64 == n && (64 * n + k) % 64 == k);
        assert(sbit(s, 64 * n + k) == wbit(s[n], k));
    }
}
pub proof fn i64_range(v: i64, w: int)
    requires 1 <= w <= 64, -p2(w - 1) <= v < p2(w - 1),
    ensures forall|k: int| w - 1 <= k < 64 ==> #[trigger] wbit(v as u64, k) == (v < 0),
{
    let y = v as u64;
    assert(v >= 0 ==> y as i128 == v as i128) by (bit_vector) requires y == v as u64;
    assert(v < 0 ==> !y as i128 == sub(-1i128, v as i128)) by (bit_vector) requires y == v as u64;
    assert forall|k: int| w - 1 <= k < 64 implies #[trigger] wbit(y, k) == (v < 0) by {
        if v >= 0 { w_nbit(y, k); nbit_high(v as int, w - 1, k); }
        else { w_nbit(!y, k); assert(!y as int == -1 - v); nbit_high(-1 - v, w - 1, k); b_not(y, k); }
    }
}
