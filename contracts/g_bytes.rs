// ---------------------------------------------------------------------------------------------
// Byte sequences.
// ---------------------------------------------------------------------------------------------
/// base-256 little-endian value of the first n bytes
pub open spec fn bvaln(s: Seq<u8>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { bvaln(s, n - 1) + s[n - 1] * p2(8 * (n - 1)) }
}
pub open spec fn bval(s: Seq<u8>) -> int { bvaln(s, s.len() as int) }
pub open spec fn bbit(s: Seq<u8>, k: int) -> bool { 0 <= k < 8 * s.len() && wbit(s[k / 8] as u64, k % 8) }

pub proof fn bvaln_bound(s: Seq<u8>, n: int)
    requires n >= 0,
    ensures 0 <= bvaln(s, n) < p2(8 * n),
    decreases n,
{
    p2_64();
    if n > 0 {
        bvaln_bound(s, n - 1);
        p2_add(8 * (n - 1), 8);
        let q = p2(8 * (n - 1));
        assert(bvaln(s, n - 1) + s[n - 1] * q < 256 * q) by (nonlinear_arith) requires bvaln(s, n - 1) < q, 0 <= s[n - 1] <= 255, q > 0;
        assert(s[n - 1] * q >= 0) by (nonlinear_arith) requires q >= 0, s[n - 1] >= 0;
        assert(q * 256 == 256 * q);
    }
}
pub proof fn bvaln_bit(s: Seq<u8>, n: int, k: int)
    requires 0 <= n <= s.len(), 0 <= k,
    ensures nbit(bvaln(s, n), k) == (k < 8 * n && bbit(s, k)),
    decreases n,
{
    p2_64();
    if n > 0 {
        bvaln_bit(s, n - 1, k);
        bvaln_bound(s, n - 1);
        let m = 8 * (n - 1);
        let b = s[n - 1];
        nbit_split(bvaln(s, n - 1), b as int, m, k);
        if k >= m {
            if k - m < 8 { w_nbit(b as u64, k - m); assert(k / 8 == n - 1 && k % 8 == k - m); }
            else { nbit_high(b as int, 8, k - m); }
        }
    } else {
        nbit_high(0, 0, k);
    }
}
pub proof fn bval_val(b: Seq<u8>, s: Seq<u64>)
    requires forall|k: int| #[trigger] bbit(b, k) == sbit(s, k),
    ensures bval(b) == val(s),
{
    let n = 64 * (s.len() + b.len()) as int;
    bvaln_bound(b, b.len() as int); vval_bound(s, s.len() as int);
    p2_le(8 * b.len() as int, n); p2_le(64 * s.len() as int, n);
    assert forall|k: int| 0 <= k < n implies #[trigger] nbit(bval(b), k) == nbit(val(s), k) by {
        bvaln_bit(b, b.len() as int, k);
        val_bit(s, k);
        assert(bbit(b, k) == sbit(s, k));
    }
    nat_ext(bval(b), val(s), n);
}
pub proof fn bval_mask(b: Seq<u8>, s: Seq<u64>, w: int)
    requires w >= 0, forall|k: int| #[trigger] sbit(s, k) == (k < w && bbit(b, k)),
    ensures val(s) == bval(b) % p2(w),
{
    let n = 64 * (s.len() + b.len()) as int + w;
    let x = bval(b) % p2(w);
    bvaln_bound(b, b.len() as int); vval_bound(s, s.len() as int);
    p2_le(64 * s.len() as int, n); p2_le(w, n); p2_pos(w);
    lemma_mod_bound(bval(b), p2(w));
    assert forall|k: int| 0 <= k < n implies #[trigger] nbit(val(s), k) == nbit(x, k) by {
        bvaln_bit(b, b.len() as int, k);
        val_bit(s, k);
        nbit_mod(bval(b), w, k);
        assert(sbit(s, k) == (k < w && bbit(b, k)));
    }
    nat_ext(val(s), x, n);
}
pub proof fn byte_bits(x: u64, k: int)
    ensures wbit((x & 0xff) as u8 as u64, k) == (k < 8 && wbit(x, k)),
{
    if 0 <= k < 64 {
        let n = k as u64;
        assert((((x & 0xff) as u8 as u64) >> n) & 1 == 1 <==> (n < 8 && (x >> n) & 1 == 1)) by (bit_vector) requires n < 64;
    }
}
pub proof fn byte_high(x: u8, k: int)
    requires k >= 8,
    ensures !wbit(x as u64, k),
{
    if k < 64 { let n = k as u64; assert(((x as u64) >> n) & 1 == 0) by (bit_vector) requires 8 <= n < 64; }
}
