// ---------------------------------------------------------------------------------------------
// From bits to numbers for the operations on bit-vectors.
// ---------------------------------------------------------------------------------------------
pub proof fn shl_val(a: Seq<u64>, r: Seq<u64>, n: int, w: int)
    requires n >= 0, w >= 0, forall|k: int| #[trigger] sbit(r, k) == (k < w && k >= n && sbit(a, k - n)),
    ensures val(r) == (val(a) * p2(n)) % p2(w),
{
    let x = val(a);
    vval_bound(a, a.len() as int); vval_bound(r, r.len() as int);
    p2_pos(n); p2_pos(w);
    let y = (x * p2(n)) % p2(w);
    assert(x * p2(n) >= 0) by (nonlinear_arith) requires x >= 0, p2(n) > 0;
    lemma_mod_bound(x * p2(n), p2(w));
    let m = w + 64 * r.len() as int;
    p2_le(w, m); p2_le(64 * r.len() as int, m);
    assert forall|k: int| 0 <= k < m implies #[trigger] nbit(val(r), k) == nbit(y, k) by {
        nbit_mod(x * p2(n), w, k);
        nbit_mul(x, n, k);
        val_bit(r, k);
        if k >= n { val_bit(a, k - n); }
    }
    nat_ext(val(r), y, m);
}
pub proof fn shr_val(a: Seq<u64>, r: Seq<u64>, n: int)
    requires n >= 0, forall|k: int| #[trigger] sbit(r, k) == (k >= 0 && sbit(a, k + n)),
    ensures val(r) == val(a) / p2(n),
{
    let x = val(a);
    vval_bound(a, a.len() as int); vval_bound(r, r.len() as int);
    p2_pos(n);
    lemma_div_pos_is_pos(x, p2(n));
    lemma_div_nonincreasing(x, p2(n));
    let m = 64 * (a.len() + r.len()) as int;
    p2_le(64 * a.len() as int, m); p2_le(64 * r.len() as int, m);
    assert forall|k: int| 0 <= k < m implies #[trigger] nbit(val(r), k) == nbit(x / p2(n), k) by {
        nbit_div(x, n, k);
        val_bit(r, k); val_bit(a, k + n);
    }
    nat_ext(val(r), x / p2(n), m);
}
/// complement
pub proof fn not_val(a: Seq<u64>, r: Seq<u64>, w: int)
    requires w >= 0, wfw(a, w), forall|k: int| #[trigger] sbit(r, k) == (0 <= k < w && !sbit(a, k)), r.len() == a.len(),
    ensures val(r) == p2(w) - 1 - val(a), wfw(r, w),
{
    wf_bound(a, w);
    wf_bound(r, w);
    not_num(val(a), val(r), w, a, r);
}
proof fn not_num(x: int, y: int, w: int, a: Seq<u64>, r: Seq<u64>)
    requires w >= 0, 0 <= x < p2(w), 0 <= y < p2(w), x == val(a), y == val(r), forall|k: int| #[trigger] sbit(r, k) == (0 <= k < w && !sbit(a, k)),
    ensures x + y == p2(w) - 1,
{
    assert forall|k: int| 0 <= k < w implies #[trigger] nbit(y, k) == !nbit(x, k) by { val_bit(a, k); val_bit(r, k); }
    not_nat(x, y, w);
}
pub proof fn not_nat(x: int, y: int, w: int)
    requires w >= 0, 0 <= x < p2(w), 0 <= y < p2(w), forall|k: int| 0 <= k < w ==> #[trigger] nbit(y, k) == !nbit(x, k),
    ensures x + y == p2(w) - 1,
    decreases w,
{
    p2_64();
    if w > 0 {
        p2_succ(w - 1);
        assert forall|k: int| 0 <= k < w - 1 implies #[trigger] nbit(y / 2, k) == !nbit(x / 2, k) by {
            nbit_half(x, k); nbit_half(y, k);
            assert(nbit(y, k + 1) == !nbit(x, k + 1));
        }
        not_nat(x / 2, y / 2, w - 1);
        nbit_half(x, 0); nbit_half(y, 0);
        assert(nbit(y, 0) == !nbit(x, 0));
    }
}
pub proof fn ashr_val(a: Seq<u64>, r: Seq<u64>, n: int, w: int)
    requires n >= 0, w >= 1, wfw(a, w), r.len() == a.len(),
        forall|k: int| #[trigger] sbit(r, k) == (0 <= k < w && (if k + n < w { sbit(a, k + n) } else { sbit(a, w - 1) })),
    ensures sval(r, w) == sval(a, w) / p2(n), wfw(r, w),
{
    p2_pos(n);
    sign_half(a, w);
    if !sbit(a, w - 1) {
        assert forall|k: int| #[trigger] sbit(r, k) == (k >= 0 && sbit(a, k + n)) by { if k + n >= w { assert(!sbit(a, k + n)); } }
        shr_val(a, r, n);
        assert(!sbit(r, w - 1));
    } else {
        assert(sbit(r, w - 1));
        let c = p2(w) - 1 - val(a);
        let q = c / p2(n);
        let y = p2(w) - 1 - q;
        lemma_div_pos_is_pos(c, p2(n));
        lemma_div_nonincreasing(c, p2(n));
        wf_bound(r, w);
        // bits of r are the complement of the bits of q
        assert forall|k: int| 0 <= k < w implies #[trigger] nbit(val(r), k) == !nbit(q, k) by {
            nbit_div(c, n, k);
            not_bits(val(a), w, k + n);
            val_bit(r, k); val_bit(a, k + n);
            assert(sbit(r, k) == (if k + n < w { sbit(a, k + n) } else { true }));
        }
        not_nat(q, val(r), w);
        assert(sval(r, w) == -1 - q);
        assert(sval(a, w) == -1 - c);
        neg_div(c, p2(n));
    }
}
pub proof fn neg_div(c: int, d: int)
    requires c >= 0, d > 0,
    ensures (-1 - c) / d == -1 - c / d,
{
    lemma_fundamental_div_mod(c, d);
    lemma_mod_bound(c, d);
    let q = c / d;
    let r = c % d;
    assert(-1 - c == (-1 - q) * d + (d - 1 - r)) by (nonlinear_arith) requires c == d * q + r;
    lemma_fundamental_div_mod_converse(-1 - c, d, -1 - q, d - 1 - r);
}
/// bits of the complement of a number
pub proof fn not_bits(x: int, w: int, k: int)
    requires w >= 0, 0 <= x < p2(w), k >= 0,
    ensures nbit(p2(w) - 1 - x, k) == (k < w && !nbit(x, k)),
    decreases w,
{
    p2_64();
    let y = p2(w) - 1 - x;
    if k >= w { nbit_high(y, w, k); }
    else {
        p2_succ(w - 1);
        if k == 0 {
            nbit_half(x, 0); nbit_half(y, 0);
        } else {
            nbit_half(x, k - 1); nbit_half(y, k - 1);
            assert(y / 2 == p2(w - 1) - 1 - x / 2);
            not_bits(x / 2, w - 1, k - 1);
        }
    }
}
pub proof fn concat_val(a: Seq<u64>, b: Seq<u64>, r: Seq<u64>, wb: int)
    requires wb >= 0, wfw(b, wb), forall|k: int| #[trigger] sbit(r, k) == (if k < wb { sbit(b, k) } else { sbit(a, k - wb) }),
    ensures val(r) == val(a) * p2(wb) + val(b),
{
    wf_bound(b, wb);
    vval_bound(a, a.len() as int); vval_bound(r, r.len() as int);
    let m = 64 * (a.len() + r.len()) as int + wb;
    p2_le(64 * r.len() as int, m);
    let n = 64 * a.len() as int;
    p2_add(n, wb); p2_pos(wb);
    p2_le(n + wb, m);
    let y = val(b) + val(a) * p2(wb);
    assert(val(a) * p2(wb) <= (p2(n) - 1) * p2(wb)) by (nonlinear_arith) requires val(a) <= p2(n) - 1, p2(wb) > 0;
    assert((p2(n) - 1) * p2(wb) == p2(n) * p2(wb) - p2(wb)) by (nonlinear_arith);
    assert(val(a) * p2(wb) >= 0) by (nonlinear_arith) requires val(a) >= 0, p2(wb) > 0;
    assert forall|k: int| 0 <= k < m implies #[trigger] nbit(val(r), k) == nbit(y, k) by {
        nbit_split(val(b), val(a), wb, k);
        val_bit(r, k);
        if k < wb { val_bit(b, k); } else { val_bit(a, k - wb); }
    }
    nat_ext(val(r), y, m);
}
pub proof fn slice_val(a: Seq<u64>, r: Seq<u64>, hi: int, lo: int)
    requires 0 <= lo <= hi, forall|k: int| #[trigger] sbit(r, k) == (0 <= k <= hi - lo && sbit(a, lo + k)),
    ensures val(r) == (val(a) / p2(lo)) % p2(hi - lo + 1),
{
    let w = hi - lo + 1;
    let x = val(a);
    vval_bound(a, a.len() as int); vval_bound(r, r.len() as int);
    p2_pos(lo); p2_pos(w);
    lemma_div_pos_is_pos(x, p2(lo));
    let y = (x / p2(lo)) % p2(w);
    lemma_mod_bound(x / p2(lo), p2(w));
    let m = w + 64 * r.len() as int;
    p2_le(w, m); p2_le(64 * r.len() as int, m);
    assert forall|k: int| 0 <= k < m implies #[trigger] nbit(val(r), k) == nbit(y, k) by {
        nbit_mod(x / p2(lo), w, k);
        nbit_div(x, lo, k);
        val_bit(r, k); val_bit(a, lo + k);
    }
    nat_ext(val(r), y, m);
}
pub proof fn sext_val(a: Seq<u64>, r: Seq<u64>, w: int, w2: int)
    requires 1 <= w <= w2, wfw(a, w), wfw(r, w2),
        forall|k: int| #[trigger] sbit(r, k) == (if k < w { sbit(a, k) } else { k < w2 && sbit(a, w - 1) }),
    ensures sval(r, w2) == sval(a, w),
{
    sign_half(a, w); sign_half(r, w2);
    if !sbit(a, w - 1) {
        assert forall|k: int| #[trigger] sbit(r, k) == sbit(a, k) by { if k >= w { assert(!sbit(a, k)); } }
        val_ext(a, r);
    } else {
        let c = p2(w) - 1 - val(a);
        p2_le(w, w2);
        assert forall|k: int| 0 <= k < w2 implies #[trigger] nbit(val(r), k) == !nbit(c, k) by {
            not_bits(val(a), w, k);
            val_bit(r, k); val_bit(a, k);
        }
        not_nat(c, val(r), w2);
    }
}
