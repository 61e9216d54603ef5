// ---------------------------------------------------------------------------------------------
// The number denoted by a word sequence (little endian).
// ---------------------------------------------------------------------------------------------
use vstd::arithmetic::power2::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::bits::*;

/// 2^n
pub open spec fn p2(n: int) -> int { pow2(n as nat) as int }
/// value of the first `n` words
pub open spec fn vval(s: Seq<u64>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { vval(s, n - 1) + s[n - 1] * p2(64 * (n - 1)) }
}
/// unsigned value
pub open spec fn val(s: Seq<u64>) -> int { vval(s, s.len() as int) }
/// two's complement value for a width
pub open spec fn sval(s: Seq<u64>, w: int) -> int { if sbit(s, w - 1) { val(s) - p2(w) } else { val(s) } }
/// bit of a number
pub open spec fn nbit(x: int, k: int) -> bool { k >= 0 && (x / p2(k)) % 2 == 1 }

pub proof fn p2_pos(n: int)
    ensures p2(n) > 0,
{ lemma_pow2_pos(n as nat); }
pub proof fn p2_add(a: int, b: int)
    requires a >= 0, b >= 0,
    ensures p2(a + b) == p2(a) * p2(b),
{ lemma_pow2_adds(a as nat, b as nat); }
pub proof fn p2_le(a: int, b: int)
    requires 0 <= a <= b,
    ensures p2(a) <= p2(b),
{ if a < b { lemma_pow2_strictly_increases(a as nat, b as nat); } }
pub proof fn p2_lt(a: int, b: int)
    requires 0 <= a < b,
    ensures p2(a) < p2(b),
{ lemma_pow2_strictly_increases(a as nat, b as nat); }
pub proof fn p2_64()
    ensures p2(64) == 0x1_0000_0000_0000_0000, p2(0) == 1, p2(1) == 2, p2(32) == 0x1_0000_0000, p2(8) == 256, p2(4) == 16, p2(63) == 0x8000_0000_0000_0000,
{ lemma2_to64(); lemma2_to64_rest(); p2_add(32, 32); p2_add(32, 31); }
pub proof fn p2_succ(n: int)
    requires n >= 0,
    ensures p2(n + 1) == 2 * p2(n),
{ p2_add(n, 1); p2_64(); }

pub proof fn vval_ext(a: Seq<u64>, b: Seq<u64>, n: int)
    requires forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures vval(a, n) == vval(b, n),
    decreases n,
{ if n > 0 { vval_ext(a, b, n - 1); } }
pub proof fn vval_step(a: Seq<u64>, b: Seq<u64>, n: int)
    requires n >= 0, forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures vval(b, n + 1) == vval(a, n) + b[n] * p2(64 * n),
{ vval_ext(a, b, n); }
pub proof fn vval_bound(s: Seq<u64>, n: int)
    requires n >= 0,
    ensures 0 <= vval(s, n) < p2(64 * n),
    decreases n,
{
    p2_64();
    if n > 0 {
        vval_bound(s, n - 1);
        p2_add(64 * (n - 1), 64);
        let p = p2(64 * (n - 1));
        let x = s[n - 1] as int;
        assert(x * p <= (p2(64) - 1) * p) by (nonlinear_arith) requires 0 <= x <= p2(64) - 1, p >= 0;
        assert(x * p >= 0) by (nonlinear_arith) requires 0 <= x, p >= 0;
        assert((p2(64) - 1) * p == p2(64) * p - p) by (nonlinear_arith);
        assert(p2(64) * p == p * p2(64)) by (nonlinear_arith);
    }
}
/// equal words above `i`
pub proof fn vval_top(a: Seq<u64>, b: Seq<u64>, i: int, n: int)
    requires 0 <= i <= n, forall|j: int| i <= j < n ==> a[j] == b[j],
    ensures vval(a, n) - vval(a, i) == vval(b, n) - vval(b, i),
    decreases n - i,
{ if i < n { vval_top(a, b, i, n - 1); } }
pub proof fn vval_less(a: Seq<u64>, b: Seq<u64>, i: int, n: int)
    requires 0 <= i < n, a[i] < b[i], forall|j: int| i < j < n ==> a[j] == b[j],
    ensures vval(a, n) < vval(b, n),
{
    vval_top(a, b, i + 1, n);
    vval_bound(a, i);
    vval_bound(b, i);
    let p = p2(64 * i);
    p2_pos(64 * i);
    let (x, y) = (a[i] as int, b[i] as int);
    assert(x * p + p <= y * p) by (nonlinear_arith) requires x + 1 <= y, p > 0;
}

pub proof fn w_nbit(x: u64, k: int)
    requires 0 <= k < 64,
    ensures wbit(x, k) == nbit(x as int, k),
{
    let n = k as u64;
    lemma_u64_shr_is_div(x, n);
    let y = x >> n;
    assert(y & 1 == y % 2) by (bit_vector);
}
/// (a + b * 2^m) with a < 2^m
pub proof fn nbit_split(a: int, b: int, m: int, k: int)
    requires m >= 0, k >= 0, b >= 0, 0 <= a < p2(m),
    ensures nbit(a + b * p2(m), k) == if k < m { nbit(a, k) } else { nbit(b, k - m) },
{
    p2_pos(k); p2_pos(m);
    if k < m {
        p2_add(k, m - k);
        let d = p2(m - k);
        p2_succ(m - k - 1);
        let h = p2(m - k - 1);
        assert(b * p2(m) == (b * d) * p2(k)) by (nonlinear_arith) requires p2(m) == p2(k) * d;
        lemma_hoist_over_denominator(a, b * d, p2(k) as nat);
        assert(b * d == 2 * (b * h)) by (nonlinear_arith) requires d == 2 * h;
        assert((a / p2(k) + 2 * (b * h)) % 2 == (a / p2(k)) % 2);
        assert((a + b * p2(m)) / p2(k) == a / p2(k) + b * d);
    } else {
        p2_add(m, k - m);
        p2_pos(k - m);
        lemma_div_denominator(a + b * p2(m), p2(m), p2(k - m));
        lemma_hoist_over_denominator(a, b, p2(m) as nat);
        lemma_basic_div(a, p2(m));
    }
}
pub proof fn vval_bit(s: Seq<u64>, n: int, k: int)
    requires 0 <= n <= s.len(), 0 <= k,
    ensures nbit(vval(s, n), k) == (k < 64 * n && sbit(s, k)),
    decreases n,
{
    if n > 0 {
        vval_bit(s, n - 1, k);
        vval_bound(s, n - 1);
        nbit_split(vval(s, n - 1), s[n - 1] as int, 64 * (n - 1), k);
        if k >= 64 * (n - 1) {
            let j = k - 64 * (n - 1);
            if j < 64 {
                w_nbit(s[n - 1], j);
                assert(k / 64 == n - 1 && k % 64 == j);
            } else {
                nbit_high(s[n - 1] as int, 64, j);
                p2_64();
            }
        }
    } else {
        p2_pos(k);
        lemma_basic_div(0, p2(k));
    }
}
pub proof fn nbit_high(x: int, n: int, k: int)
    requires 0 <= x, 0 <= n <= k, x < p2(n) || n == 64 && x < 0x1_0000_0000_0000_0000,
    ensures !nbit(x, k),
{
    p2_64();
    p2_le(n, k);
    lemma_basic_div(x, p2(k));
}
pub proof fn val_bit(s: Seq<u64>, k: int)
    requires 0 <= k,
    ensures nbit(val(s), k) == sbit(s, k),
{ vval_bit(s, s.len() as int, k); }

pub proof fn nbit_half(x: int, k: int)
    requires x >= 0, k >= 0,
    ensures nbit(x / 2, k) == nbit(x, k + 1), nbit(x, 0) == (x % 2 == 1),
{
    p2_64();
    p2_pos(k);
    p2_add(1, k);
    lemma_div_denominator(x, 2, p2(k));
}
/// numbers are determined by their bits
pub proof fn nat_ext(x: int, y: int, n: int)
    requires 0 <= x < p2(n), 0 <= y < p2(n), n >= 0, forall|k: int| 0 <= k < n ==> #[trigger] nbit(x, k) == nbit(y, k),
    ensures x == y,
    decreases n,
{
    p2_64();
    if n > 0 {
        p2_succ(n - 1);
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] nbit(x / 2, k) == nbit(y / 2, k) by {
            nbit_half(x, k); nbit_half(y, k);
            assert(nbit(x, k + 1) == nbit(y, k + 1));
        }
        nat_ext(x / 2, y / 2, n - 1);
        nbit_half(x, 0); nbit_half(y, 0);
        assert(nbit(x, 0) == nbit(y, 0));
    }
}
pub proof fn nbit_mod(x: int, n: int, k: int)
    requires x >= 0, n >= 0, k >= 0,
    ensures nbit(x % p2(n), k) == (k < n && nbit(x, k)),
{
    p2_pos(n);
    lemma_fundamental_div_mod(x, p2(n));
    lemma_mod_bound(x, p2(n));
    lemma_div_pos_is_pos(x, p2(n));
    let a = x % p2(n);
    let b = x / p2(n);
    assert(p2(n) * b == b * p2(n)) by (nonlinear_arith);
    nbit_split(a, b, n, k);
    if k >= n { nbit_high(a, n, k); }
}
pub proof fn nbit_div(x: int, n: int, k: int)
    requires x >= 0, n >= 0, k >= 0,
    ensures nbit(x / p2(n), k) == nbit(x, k + n),
{
    p2_pos(n); p2_pos(k);
    p2_add(n, k);
    lemma_div_denominator(x, p2(n), p2(k));
}
pub proof fn nbit_mul(x: int, n: int, k: int)
    requires x >= 0, n >= 0, k >= 0,
    ensures nbit(x * p2(n), k) == (k >= n && nbit(x, k - n)),
{
    p2_pos(n); p2_pos(k);
    nbit_split(0, x, n, k);
    if k < n { lemma_basic_div(0, p2(k)); }
}
/// the value of a canonical sequence is below 2^w, and conversely
pub proof fn wf_bound(s: Seq<u64>, w: int)
    requires w >= 0, wfw(s, w),
    ensures 0 <= val(s) < p2(w),
{
    let x = val(s);
    let n = 64 * s.len() as int;
    vval_bound(s, s.len() as int);
    p2_pos(w); p2_le(w, n);
    lemma_mod_bound(x, p2(w));
    assert forall|k: int| 0 <= k < n implies #[trigger] nbit(x, k) == nbit(x % p2(w), k) by {
        nbit_mod(x, w, k); val_bit(s, k);
    }
    nat_ext(x, x % p2(w), n);
}
pub proof fn wf_from_bound(s: Seq<u64>, w: int)
    requires w >= 0, s.len() == nw(w), val(s) < p2(w),
    ensures wfw(s, w),
{
    vval_bound(s, s.len() as int);
    assert forall|k: int| w <= k implies !#[trigger] sbit(s, k) by {
        val_bit(s, k);
        nbit_high(val(s), w, k);
    }
}
/// keeping only the bits below w is reduction modulo 2^w
pub proof fn val_mask(s: Seq<u64>, r: Seq<u64>, w: int)
    requires w >= 0, forall|k: int| #[trigger] sbit(r, k) == (k < w && sbit(s, k)),
    ensures val(r) == val(s) % p2(w),
{
    let n = 64 * (s.len() + r.len()) as int;
    vval_bound(s, s.len() as int); vval_bound(r, r.len() as int);
    p2_le(64 * s.len() as int, n); p2_le(64 * r.len() as int, n);
    p2_pos(w);
    lemma_mod_bound(val(s), p2(w));
    lemma_mod_decreases(val(s) as nat, p2(w) as nat);
    assert forall|k: int| 0 <= k < n implies #[trigger] nbit(val(r), k) == nbit(val(s) % p2(w), k) by {
        nbit_mod(val(s), w, k); val_bit(s, k); val_bit(r, k);
    }
    nat_ext(val(r), val(s) % p2(w), n);
}
/// values are determined by bits (lengths may differ)
pub proof fn val_ext(a: Seq<u64>, b: Seq<u64>)
    requires beq(a, b),
    ensures val(a) == val(b),
{
    let n = 64 * (a.len() + b.len()) as int;
    vval_bound(a, a.len() as int); vval_bound(b, b.len() as int);
    p2_le(64 * a.len() as int, n); p2_le(64 * b.len() as int, n);
    assert forall|k: int| 0 <= k < n implies #[trigger] nbit(val(a), k) == nbit(val(b), k) by {
        val_bit(a, k); val_bit(b, k);
    }
    nat_ext(val(a), val(b), n);
}
/// and bits by values
pub proof fn val_inj(a: Seq<u64>, b: Seq<u64>)
    requires val(a) == val(b),
    ensures beq(a, b), a.len() == b.len() ==> a == b,
{
    assert forall|k: int| #[trigger] sbit(a, k) == sbit(b, k) by {
        if k >= 0 { val_bit(a, k); val_bit(b, k); }
    }
    if a.len() == b.len() { s_ext(a, b); }
}
pub proof fn val_zero(s: Seq<u64>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0,
    ensures val(s) == 0,
{ vval_zero(s, s.len() as int); }
pub proof fn vval_zero(s: Seq<u64>, n: int)
    requires forall|i: int| 0 <= i < n ==> s[i] == 0,
    ensures vval(s, n) == 0,
    decreases n,
{ if n > 0 { vval_zero(s, n - 1); assert(0 * p2(64 * (n - 1)) == 0); } }
pub proof fn val_one_word(s: Seq<u64>)
    requires s.len() >= 1, forall|i: int| 1 <= i < s.len() ==> s[i] == 0,
    ensures val(s) == s[0],
    decreases s.len(),
{
    p2_64();
    vval_low(s, s.len() as int);
}
pub proof fn vval_low(s: Seq<u64>, n: int)
    requires n >= 1, forall|i: int| 1 <= i < n ==> s[i] == 0,
    ensures vval(s, n) == s[0],
    decreases n,
{
    p2_64();
    if n > 1 { vval_low(s, n - 1); assert(s[n - 1] == 0); assert(0 * p2(64 * (n - 1)) == 0); }
    else { assert(vval(s, 0) == 0); assert(s[0] * p2(0) == s[0]); assert(vval(s, 1) == vval(s, 0) + s[0] * p2(0)); }
}
/// the sign bit decides about the upper half
pub proof fn sign_half(s: Seq<u64>, w: int)
    requires w >= 1, wfw(s, w),
    ensures sbit(s, w - 1) == (val(s) >= p2(w - 1)), p2(w) == 2 * p2(w - 1), 0 <= val(s) < p2(w),
        -p2(w - 1) <= sval(s, w) < p2(w - 1),
{
    wf_bound(s, w);
    p2_succ(w - 1);
    p2_pos(w - 1);
    val_bit(s, w - 1);
    let x = val(s);
    let p = p2(w - 1);
    lemma_fundamental_div_mod(x, p);
    lemma_mod_bound(x, p);
    lemma_div_pos_is_pos(x, p);
    let q = x / p;
    assert(q < 2) by (nonlinear_arith) requires p * q <= x, x < 2 * p, p > 0;
    if q == 1 { assert(p * 1 == p); } else { assert(p * 0 == 0); }
}
/// final step of a carry chain: drop the carry, keep the low bits
pub proof fn carry_mask(d: Seq<u64>, r: Seq<u64>, c: int, x: int, w: int)
    requires w >= 1, d.len() == nw(w), r.len() == d.len(),
        forall|k: int| #[trigger] sbit(r, k) == (k < w && sbit(d, k)),
        val(d) + c * p2(64 * d.len() as int) == x,
    ensures val(r) == x % p2(w), wfw(r, w),
{
    val_mask(d, r, w);
    p2_add(w, 64 * d.len() - w);
    p2_pos(w);
    let q = c * p2(64 * d.len() - w);
    assert(c * (p2(w) * p2(64 * d.len() - w)) == p2(w) * q) by (nonlinear_arith) requires q == c * p2(64 * d.len() - w);
    lemma_mod_multiples_vanish(q, val(d), p2(w));
}
pub proof fn val_big(s: Seq<u64>, i: int)
    requires 1 <= i < s.len(), s[i] != 0,
    ensures val(s) >= 0x1_0000_0000_0000_0000,
{
    val_ge(s, i, s.len() as int);
    p2_64(); p2_le(64, 64 * i);
}
pub proof fn val_ge(s: Seq<u64>, i: int, n: int)
    requires 0 <= i < n, s[i] != 0,
    ensures vval(s, n) >= p2(64 * i),
    decreases n,
{
    vval_bound(s, n - 1);
    let x = s[n - 1] as int;
    let p = p2(64 * (n - 1));
    p2_pos(64 * (n - 1));
    if i < n - 1 {
        val_ge(s, i, n - 1);
        assert(x * p >= 0) by (nonlinear_arith) requires x >= 0, p > 0;
    } else {
        assert(x * p >= p) by (nonlinear_arith) requires x >= 1, p > 0;
    }
}
pub proof fn mul_one(a: Seq<u64>, b: Seq<u64>, w: int)
    requires a.len() == 1, b.len() == 1,
    ensures val(a) == a[0], val(b) == b[0],
{ val_one_word(a); val_one_word(b); }
pub proof fn mul_mask(x: u64, y: u64, r: Seq<u64>, w: u32)
    requires 1 <= w <= 64, r.len() == 1,
        forall|k: int| 0 <= k < 64 ==> #[trigger] wbit(r[0], k) == (k < w && wbit(((x as int * y as int) % 0x1_0000_0000_0000_0000) as u64, k)),
    ensures val(r) == (x as int * y as int) % p2(w as int), wfw(r, w as int),
{
    let z = x as int * y as int;
    let d = (z % 0x1_0000_0000_0000_0000) as u64;
    let s = seq![d];
    assert forall|k: int| #[trigger] sbit(r, k) == (k < w && sbit(s, k)) by {
        if 0 <= k < 64 { assert(wbit(r[0], k) == (k < w && wbit(d, k))); }
    }
    val_mask(s, r, w as int);
    val_one_word(s);
    p2_64();
    p2_pos(w as int);
    p2_add(w as int, 64 - w as int);
    p2_pos(64 - w as int);
    lemma_mod_mod(z, p2(w as int), p2(64 - w as int));
}
