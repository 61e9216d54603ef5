// ---------------------------------------------------------------------------------------------
// Bits of words and of word sequences.
// ---------------------------------------------------------------------------------------------
pub open spec fn wbit(x: u64, k: int) -> bool {
    0 <= k < 64 && (x >> (k as u64)) & 1 == 1
}
pub open spec fn sbit(s: Seq<u64>, k: int) -> bool {
    0 <= k < 64 * s.len() && wbit(s[k / 64], k % 64)
}
/// number of words for a width
pub open spec fn nw(w: int) -> int { (w + 63) / 64 }
/// canonical: right number of words and no bit at or above the width
pub open spec fn wfw(s: Seq<u64>, w: int) -> bool {
    s.len() == nw(w) && forall|k: int| w <= k ==> !#[trigger] sbit(s, k)
}
/// equality of all bits
pub open spec fn beq(a: Seq<u64>, b: Seq<u64>) -> bool {
    forall|k: int| #[trigger] sbit(a, k) == sbit(b, k)
}

pub broadcast proof fn b_and(x: u64, y: u64, k: int)
    ensures #[trigger] wbit(x & y, k) == (wbit(x, k) && wbit(y, k)),
{
    if 0 <= k < 64 { let n = k as u64; assert(((x & y) >> n) & 1 == 1 <==> ((x >> n) & 1 == 1 && (y >> n) & 1 == 1)) by (bit_vector) requires n < 64; }
}
pub broadcast proof fn b_or(x: u64, y: u64, k: int)
    ensures #[trigger] wbit(x | y, k) == (wbit(x, k) || wbit(y, k)),
{
    if 0 <= k < 64 { let n = k as u64; assert(((x | y) >> n) & 1 == 1 <==> ((x >> n) & 1 == 1 || (y >> n) & 1 == 1)) by (bit_vector) requires n < 64; }
}
pub broadcast proof fn b_xor(x: u64, y: u64, k: int)
    ensures #[trigger] wbit(x ^ y, k) == (wbit(x, k) != wbit(y, k)),
{
    if 0 <= k < 64 { let n = k as u64; assert(((x ^ y) >> n) & 1 == 1 <==> ((x >> n) & 1 == 1) != ((y >> n) & 1 == 1)) by (bit_vector) requires n < 64; }
}
pub broadcast proof fn b_not(x: u64, k: int)
    ensures #[trigger] wbit(!x, k) == (0 <= k < 64 && !wbit(x, k)),
{
    if 0 <= k < 64 { let n = k as u64; assert((!x >> n) & 1 == 1 <==> !((x >> n) & 1 == 1)) by (bit_vector) requires n < 64; }
}
pub broadcast proof fn b_shl(x: u64, s: u32, k: int)
    requires s < 64,
    ensures #[trigger] wbit(x << s, k) == (s <= k < 64 && wbit(x, k - s)),
{
    if 0 <= k < 64 {
        let n = k as u64;
        if k >= s {
            let m = (k - s) as u64;
            let t = s as u64;
            assert(((x << t) >> n) & 1 == 1 <==> (x >> m) & 1 == 1) by (bit_vector) requires n < 64, t <= n, m == sub(n, t);
            assert(x << s == x << t) by (bit_vector) requires t == s as u64, s < 64;
        } else {
            let t = s as u64;
            assert(!(((x << t) >> n) & 1 == 1)) by (bit_vector) requires n < t, t < 64;
            assert(x << s == x << t) by (bit_vector) requires t == s as u64, s < 64;
        }
    }
}
pub broadcast proof fn b_shr(x: u64, s: u32, k: int)
    requires s < 64,
    ensures #[trigger] wbit(x >> s, k) == (0 <= k && k + s < 64 && wbit(x, k + s)),
{
    if 0 <= k < 64 {
        let n = k as u64;
        let t = s as u64;
        assert(x >> s == x >> t) by (bit_vector) requires t == s as u64, s < 64;
        if k + s < 64 {
            let m = (k + s) as u64;
            assert(((x >> t) >> n) & 1 == 1 <==> (x >> m) & 1 == 1) by (bit_vector) requires n < 64, t < 64, m == add(n, t), m < 64;
        } else {
            assert(!(((x >> t) >> n) & 1 == 1)) by (bit_vector) requires n < 64, t < 64, add(n, t) >= 64;
        }
    }
}
pub broadcast proof fn b_zero(k: int)
    ensures !#[trigger] wbit(0u64, k),
{
    if 0 <= k < 64 { let n = k as u64; assert(!((0u64 >> n) & 1 == 1)) by (bit_vector) requires n < 64; }
}
pub broadcast proof fn b_one(k: int)
    ensures #[trigger] wbit(1u64, k) == (k == 0),
{
    if 0 <= k < 64 { let n = k as u64; assert(((1u64 >> n) & 1 == 1) <==> n == 0) by (bit_vector) requires n < 64; }
}
pub broadcast proof fn b_max(k: int)
    ensures #[trigger] wbit(0xffff_ffff_ffff_ffffu64, k) == (0 <= k < 64),
{
    if 0 <= k < 64 { let n = k as u64; assert(((0xffff_ffff_ffff_ffffu64 >> n) & 1 == 1)) by (bit_vector) requires n < 64; }
}
/// shifts and masks by powers of two are divisions and remainders
pub broadcast proof fn b_div64_w(x: u32) ensures #[trigger] (x >> 6) == x / 64 { assert(x >> 6 == x / 64) by (bit_vector); }
pub broadcast proof fn b_rem64_w(x: u32) ensures #[trigger] (x & 63) == x % 64 { assert(x & 63 == x % 64) by (bit_vector); }
pub broadcast proof fn b_div32_w(x: u32) ensures #[trigger] (x >> 5) == x / 32 { assert(x >> 5 == x / 32) by (bit_vector); }
pub broadcast proof fn b_rem32_w(x: u32) ensures #[trigger] (x & 31) == x % 32 { assert(x & 31 == x % 32) by (bit_vector); }
pub broadcast proof fn b_div8_w(x: u32) ensures #[trigger] (x >> 3) == x / 8 { assert(x >> 3 == x / 8) by (bit_vector); }
pub broadcast proof fn b_rem8_w(x: u32) ensures #[trigger] (x & 7) == x % 8 { assert(x & 7 == x % 8) by (bit_vector); }
pub broadcast proof fn b_div4_w(x: u32) ensures #[trigger] (x >> 2) == x / 4 { assert(x >> 2 == x / 4) by (bit_vector); }
pub broadcast proof fn b_rem4_w(x: u32) ensures #[trigger] (x & 3) == x % 4 { assert(x & 3 == x % 4) by (bit_vector); }
pub broadcast proof fn b_div64_z(x: usize) ensures #[trigger] (x >> 6) == x / 64 { assert(x >> 6 == x / 64) by (bit_vector); }
pub broadcast proof fn b_rem64_z(x: usize) ensures #[trigger] (x & 63) == x % 64 { assert(x & 63 == x % 64) by (bit_vector); }
pub broadcast proof fn b_div32_z(x: usize) ensures #[trigger] (x >> 5) == x / 32 { assert(x >> 5 == x / 32) by (bit_vector); }
pub broadcast proof fn b_rem32_z(x: usize) ensures #[trigger] (x & 31) == x % 32 { assert(x & 31 == x % 32) by (bit_vector); }
pub broadcast proof fn b_div8_z(x: usize) ensures #[trigger] (x >> 3) == x / 8 { assert(x >> 3 == x / 8) by (bit_vector); }
pub broadcast proof fn b_rem8_z(x: usize) ensures #[trigger] (x & 7) == x % 8 { assert(x & 7 == x % 8) by (bit_vector); }
pub broadcast proof fn b_div4_z(x: usize) ensures #[trigger] (x >> 2) == x / 4 { assert(x >> 2 == x / 4) by (bit_vector); }
pub broadcast proof fn b_rem4_z(x: usize) ensures #[trigger] (x & 3) == x % 4 { assert(x & 3 == x % 4) by (bit_vector); }
pub broadcast group group_pow { b_div64_w, b_rem64_w, b_div32_w, b_rem32_w, b_div8_w, b_rem8_w, b_div4_w, b_rem4_w, b_div64_z, b_rem64_z, b_div32_z, b_rem32_z, b_div8_z, b_rem8_z, b_div4_z, b_rem4_z }
/// bitwise operators commute
pub broadcast proof fn b_and_c(x: u64, y: u64) ensures #[trigger] (x & y) == y & x { assert(x & y == y & x) by (bit_vector); }
pub broadcast proof fn b_or_c(x: u64, y: u64) ensures #[trigger] (x | y) == y | x { assert(x | y == y | x) by (bit_vector); }
pub broadcast proof fn b_xor_c(x: u64, y: u64) ensures #[trigger] (x ^ y) == y ^ x { assert(x ^ y == y ^ x) by (bit_vector); }
pub broadcast proof fn b_or_cc(x: u128, y: u128) ensures #[trigger] (x | y) == y | x { assert(x | y == y | x) by (bit_vector); }
/// `!0` is the largest word
pub broadcast proof fn b_not0(x: u64) ensures x == 0 ==> #[trigger] !x == u64::MAX, x == u64::MAX ==> !x == 0 { assert(x == 0 ==> !x == 0xffff_ffff_ffff_ffff) by (bit_vector); assert(x == 0xffff_ffff_ffff_ffff ==> !x == 0) by (bit_vector); }
/// a part of a part
pub broadcast proof fn b_sub_sub<T>(s: Seq<T>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a,
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d),
{
    assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d));
}
pub broadcast group group_comm { b_and_c, b_or_c, b_xor_c, b_or_cc, b_not0 }
/// `x & 1` is the remainder, `x & (1 << s)` picks one bit
pub broadcast proof fn b_rem2(x: u64) ensures #[trigger] (x & 1) == x % 2 { assert(x & 1 == x % 2) by (bit_vector); }
pub broadcast proof fn b_pick(x: u64, s: u32)
    ensures s < 64 ==> #[trigger] (x & (1u64 << s)) == if wbit(x, s as int) { 1u64 << s } else { 0 }, s < 64 ==> (1u64 << s) != 0,
{
    if s < 64 {
        let n = s as u64;
        assert(1u64 << s == 1u64 << n) by (bit_vector) requires n == s as u64, s < 64;
        assert((1u64 << n) != 0) by (bit_vector) requires n < 64;
        assert((x & (1u64 << n)) == if (x >> n) & 1 == 1 { 1u64 << n } else { 0 }) by (bit_vector) requires n < 64;
    }
}
pub broadcast group group_pick { b_rem2, b_pick }
pub broadcast group group_wbit { group_pow, group_comm, group_pick, b_and, b_or, b_xor, b_not, b_shl, b_shr, b_zero, b_one, b_max }

/// words are determined by their bits
pub proof fn w_ext(x: u64, y: u64)
    requires forall|k: int| 0 <= k < 64 ==> #[trigger] wbit(x, k) == wbit(y, k),
    ensures x == y,
{
    let d = x ^ y;
    assert forall|n: u64| n < 64 implies ((d >> n) & 1 == 0) by {
        assert(wbit(x, n as int) == wbit(y, n as int));
        b_xor(x, y, n as int);
        assert(!wbit(d, n as int));
        assert((d >> n) & 1 == 0 || (d >> n) & 1 == 1) by (bit_vector);
    }
    assert(d == 0) by {
        w_zero(d);
    }
    assert(x == y) by (bit_vector) requires x ^ y == 0;
}
pub proof fn w_zero(d: u64)
    requires forall|n: u64| n < 64 ==> (d >> n) & 1 == 0,
    ensures d == 0,
{
    if d != 0 {
        assert(exists|n: u64| n < 64 && (d >> n) & 1 != 0) by {
            w_nz(d, 64);
        }
    }
}
proof fn w_nz(d: u64, n: u64)
    requires d != 0, n <= 64, n < 64 ==> d >> n == 0,
    ensures exists|m: u64| m < 64 && (d >> m) & 1 != 0,
    decreases n,
{
    if n == 0 {
        assert(d >> 0 == d) by (bit_vector);
    } else {
        let m = (n - 1) as u64;
        assert(n < 64 && d >> n == 0 && (d >> m) & 1 == 0 ==> d >> m == 0) by (bit_vector) requires m == sub(n, 1), 0 < n, n <= 64;
        if (d >> m) & 1 == 0 {
            assert((d >> 63) & 1 == 0 ==> d >> 63 == 0) by (bit_vector);
            w_nz(d, m);
        } else {
            assert(m < 64 && (d >> m) & 1 != 0);
        }
    }
}
/// sequences of the same length are determined by their bits
pub proof fn s_ext(a: Seq<u64>, b: Seq<u64>)
    requires a.len() == b.len(), beq(a, b),
    ensures a == b,
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert forall|k: int| 0 <= k < 64 implies wbit(a[i], k) == wbit(b[i], k) by {
            assert(sbit(a, 64 * i + k) == sbit(b, 64 * i + k));
            assert((64 * i + k) / 64 == i && (64 * i + k) % 64 == k);
        }
        w_ext(a[i], b[i]);
    }
    assert(a =~= b);
}
pub open spec fn is_mask(m: u64, bits: u32) -> bool { forall|k: int| 0 <= k < 64 ==> #[trigger] wbit(m, k) == (bits == 0 || k < bits) }
pub proof fn w_mask(bits: u32)
    requires bits <= 64,
    ensures
        0 < bits < 64 ==> (1u64 << bits) >= 1,
        0 < bits < 64 ==> forall|k: int| #[trigger] wbit(((1u64 << bits) - 1) as u64, k) == (0 <= k < bits),
{
    if 0 < bits < 64 {
        let t = bits as u64;
        assert((1u64 << t) >= 1) by (bit_vector) requires t < 64;
        assert(1u64 << bits == 1u64 << t) by (bit_vector) requires t == bits as u64, bits < 64;
        let m = ((1u64 << bits) - 1) as u64;
        assert(m == sub(1u64 << t, 1));
        assert forall|k: int| wbit(m, k) == (0 <= k < bits) by {
            if 0 <= k < 64 {
                let n = k as u64;
                assert(((m >> n) & 1 == 1) <==> n < t) by (bit_vector) requires n < 64, t < 64, 0 < t, m == sub(1u64 << t, 1);
            }
        }
    }
}
pub proof fn w_shr_bit(x: u64, n: u32)
    requires n < 64,
    ensures ((x >> n) & 1 == 1) == wbit(x, n as int),
{
    let t = n as u64;
    assert(x >> n == x >> t) by (bit_vector) requires t == n as u64, n < 64;
}
pub proof fn w_split128(x: u128)
    ensures (x >> 64u32) as u64 as int * 0x1_0000_0000_0000_0000 + (x as u64) as int == x as int, (x >> 64u32) as u128 == (x >> 64u32) as u64 as u128,
        x < 0x2_0000_0000_0000_0000 ==> ((x >> 64u32) as u8 as int == (x >> 64u32) as u64 as int && (x >> 64u32) as u8 <= 1),
{
    let hi = (x >> 64u32) as u64;
    let lo = x as u64;
    assert((x >> 64u32) as u64 as u128 == (x >> 64u32)) by (bit_vector);
    assert((x >> 64u32) * 0x1_0000_0000_0000_0000 + (x as u64) as u128 == x) by (bit_vector);
    assert((x >> 64u32) <= 0xffff_ffff_ffff_ffff) by (bit_vector);
    assert(x < 0x2_0000_0000_0000_0000 ==> ((x >> 64u32) as u8 as u128 == (x >> 64u32)) && (x >> 64u32) <= 1) by (bit_vector);
    assert(((x >> 64u32) * 0x1_0000_0000_0000_0000) as int + (x as u64) as int == x as int) by (bit_vector);
}
pub proof fn w_not(x: u64)
    ensures !x as int == 0xffff_ffff_ffff_ffff - x as int,
{ assert(!x == sub(0xffff_ffff_ffff_ffffu64, x)) by (bit_vector); }
pub proof fn w_zero_shr(n: u32)
    requires n < 64,
    ensures 0u64 >> n == 0u64,
{ assert(0u64 >> n == 0u64) by (bit_vector) requires n < 64; }
/// bit `j` of word `i`
pub proof fn sbit_at(s: Seq<u64>, i: int, j: int)
    requires 0 <= i < s.len(), 0 <= j < 64,
    ensures sbit(s, 64 * i + j) == wbit(s[i], j),
{
    assert((64 * i + j) / 64 == i && (64 * i + j) % 64 == j);
}
// `d` is `b` (of `w` bits) with `a` on top of it, given word by word
pub proof fn concat_shifted(d: Seq<u64>, a: Seq<u64>, b: Seq<u64>, w: int, n: int)
    requires
        w >= 1, w % 64 != 0, b.len() == nw(w), wfw(b, w), a.len() >= 1,
        d.len() == b.len() + a.len() || d.len() + 1 == b.len() + a.len(),
        n == d.len() + 1 - b.len() || n == a.len() + 1, n <= a.len() + 1, n + b.len() - 1 <= d.len(),
        forall|k: int| 64 * d.len() - w <= k ==> !#[trigger] sbit(a, k),
        forall|i: int| 0 <= i < b.len() - 1 ==> d[i] == b[i],
        forall|i: int, j: int| b.len() - 1 <= i < b.len() - 1 + n && 0 <= j < 64 ==> #[trigger] wbit(d[i], j) == (if i == b.len() - 1 && j < w % 64 { wbit(b[i], j) } else { sbit(a, 64 * (i - b.len() + 1) + j - w % 64) }),
    ensures
        forall|k: int| #[trigger] sbit(d, k) == (if k < w { sbit(b, k) } else { sbit(a, k - w) }),
{
    let l = b.len() as int;
    assert(w == 64 * (l - 1) + w % 64);
    assert(n + l - 1 == d.len());
    assert forall|k: int| #[trigger] sbit(d, k) == (if k < w { sbit(b, k) } else { sbit(a, k - w) }) by {
        let (i, j) = (k / 64, k % 64);
        if k >= 64 * d.len() {
            assert(!sbit(a, k - w));
        } else if k >= 0 {
            assert(k == 64 * i + j && 0 <= j < 64);
            if i < l - 1 {
                assert(d[i] == b[i]);
            } else {
                assert(wbit(d[i], j) == (if i == l - 1 && j < w % 64 { wbit(b[i], j) } else { sbit(a, 64 * (i - l + 1) + j - w % 64) }));
            }
        }
    }
}
