// ---------------------------------------------------------------------------------------------
// arrays: word ranges, conversions of slices
// ---------------------------------------------------------------------------------------------
/// element `n` of a list of elements of `wp` words
pub open spec fn big_el(s: Seq<u64>, wp: int, n: int) -> Seq<u64> { s.subrange(wp * n, wp * n + wp) }
pub proof fn big_range(len: int, wp: int, n: int, c: int)
    requires 0 <= n < c, wp >= 0, len == c * wp,
    ensures 0 <= wp * n, wp * n + wp <= len, wp * n == n * wp, wp * (n + 1) == wp * n + wp, (n + 1) * wp == wp * n + wp,
{
    assert(wp * n == n * wp && wp * (n + 1) == wp * n + wp && (n + 1) * wp == wp * n + wp) by (nonlinear_arith);
    assert(0 <= wp * n && wp * n + wp <= c * wp) by (nonlinear_arith) requires 0 <= n < c, wp >= 0;
}
pub proof fn big_store(s: Seq<u64>, t: Seq<u64>, w: Seq<u64>, wp: int, i: int, n: int, c: int)
    requires 0 <= i < c, 0 <= n < c, wp >= 1, s.len() == c * wp, w.len() == wp,
        t == s.subrange(0, wp * i) + w + s.subrange(wp * i + wp, s.len() as int),
    ensures t.len() == s.len(), big_el(t, wp, n) == if n == i { w } else { big_el(s, wp, n) },
{
    big_range(s.len() as int, wp, i, c);
    big_range(s.len() as int, wp, n, c);
    if n < i { assert(wp * n + wp <= wp * i) by (nonlinear_arith) requires n < i, wp >= 1; }
    if n > i { assert(wp * i + wp <= wp * n) by (nonlinear_arith) requires n > i, wp >= 1; }
    assert(big_el(t, wp, n) =~= if n == i { w } else { big_el(s, wp, n) });
}
impl VxView for Vec<u8> { type V = Seq<u8>; open spec fn vw(&self) -> Seq<u8> { self@ } }
impl VxView for Vec<u64> { type V = Seq<u64>; open spec fn vw(&self) -> Seq<u64> { self@ } }
impl<'a> VxFrom<&'a [u8]> for Vec<u8> {
    open spec fn vx_from_req(v: &'a [u8]) -> bool { true }
    open spec fn vx_from_spec(v: &'a [u8]) -> Seq<u8> { v@ }
    fn vx_from(v: &'a [u8]) -> (r: Vec<u8>) {
        let mut r: Vec<u8> = Vec::new();
        r.extend_from_slice(v);
        proof { assert(r@ =~= v@); }
        r
    }
}
impl<'a> VxFrom<&'a [u64]> for Vec<u64> {
    open spec fn vx_from_req(v: &'a [u64]) -> bool { true }
    open spec fn vx_from_spec(v: &'a [u64]) -> Seq<u64> { v@ }
    fn vx_from(v: &'a [u64]) -> (r: Vec<u64>) {
        vx_from_slice(v)
    }
}
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == (a as int + b as int - 1) / (b as int),
;
/// capacity is not modelled
pub trait VxShrink: Sized { fn vx_shrink(&mut self) ensures *final(self) == *old(self), ; }
impl<T> VxShrink for Vec<T> { fn vx_shrink(&mut self) { } }
/// the words of a number
pub open spec fn words_of(x: int, n: int) -> Seq<u64>
    decreases n,
{
    if n <= 0 { Seq::<u64>::empty() } else { words_of(x, n - 1).push(((x / p2(64 * (n - 1))) % 0x1_0000_0000_0000_0000) as u64) }
}
pub proof fn one_shl_usize(f: u32)
    requires f < 64,
    ensures (1usize << f) == p2(f as int), (1usize << f) > 0,
{
    one_shl(f);
    assert(1usize << f == 1u64 << f) by (bit_vector) requires f < 64;
}
pub proof fn big_index(len: int, wp: int, k: int, c: int)
    requires 0 <= k < len, len == c * wp, wp >= 1,
    ensures 0 <= k / wp < c, 0 <= k - wp * (k / wp) < wp, wp * (k / wp) + wp <= len, 0 <= wp * (k / wp),
{
    let n = k / wp;
    lemma_fundamental_div_mod(k, wp);
    lemma_mod_bound(k, wp);
    assert(n >= 0) by (nonlinear_arith) requires wp * n + k % wp == k, 0 <= k % wp < wp, k >= 0, wp >= 1;
    assert(n < c) by (nonlinear_arith) requires wp * n <= k, k < c * wp, wp >= 1;
    big_range(len, wp, n, c);
}
pub proof fn big_push(s: Seq<u64>, t: Seq<u64>, w: Seq<u64>, wp: int, c: int, n: int)
    requires 0 <= n <= c, wp >= 1, s.len() == c * wp, w.len() == wp, t == s + w,
    ensures big_el(t, wp, n) == if n == c { w } else { big_el(s, wp, n) },
{
    assert(c * wp == wp * c) by (nonlinear_arith);
    if n < c { assert(0 <= wp * n && wp * n + wp <= wp * c) by (nonlinear_arith) requires 0 <= n < c, wp >= 1; }
    assert(big_el(t, wp, n) =~= if n == c { w } else { big_el(s, wp, n) });
}
/// the value of a well-formed bit-vector of up to 64 bits
pub proof fn wf_small(s: Seq<u64>, w: int)
    requires 0 <= w, wfw(s, w),
    ensures 0 <= val(s) < p2(w), w <= 64 ==> p2(w) <= 0x1_0000_0000_0000_0000,
        w < 64 ==> p2(w) <= 0x8000_0000_0000_0000, w <= 8 ==> p2(w) <= 256,
{
    wf_bound(s, w);
    p2_64();
    if w <= 64 { p2_le(w, 64); }
    if w < 64 { p2_le(w, 63); p2_add(63, 1); }
    if w <= 8 { p2_le(w, 8); assert(p2(8) == 256) by (compute); }
}
pub proof fn p2_small(w: int)
    requires 0 <= w,
    ensures p2(w) >= 1, w <= 64 ==> p2(w) <= 0x1_0000_0000_0000_0000, w < 64 ==> p2(w) <= 0x8000_0000_0000_0000, w <= 31 ==> p2(w) <= 0x8000_0000, w <= 8 ==> p2(w) <= 256,
{
    p2_pos(w);
    p2_64();
    if w <= 64 { p2_le(w, 64); }
    if w < 64 { p2_le(w, 63); p2_add(63, 1); }
    if w <= 31 { p2_le(w, 31); lemma2_to64(); }
    if w <= 8 { p2_le(w, 8); assert(p2(8) == 256) by (compute); }
}
/// a list of elements without a bit
pub proof fn big_zero(s: Seq<u64>, wp: int, n: int, c: int, dw: int)
    requires 0 <= n < c, wp == nw(dw), dw >= 0, s.len() == c * wp, forall|i: int| 0 <= i < s.len() ==> s[i] == 0,
    ensures wfw(big_el(s, wp, n), dw), val(big_el(s, wp, n)) == 0,
{
    big_range(s.len() as int, wp, n, c);
    let e = big_el(s, wp, n);
    assert forall|i: int| 0 <= i < e.len() implies e[i] == 0 by { assert(e[i] == s[wp * n + i]); }
    val_zero(e);
    p2_pos(dw);
    wf_from_bound(e, dw);
}
pub proof fn words_of_val(x: int, n: int)
    requires 0 <= n, 0 <= x,
    ensures words_of(x, n).len() == n, val(words_of(x, n)) == x % p2(64 * n),
    decreases n,
{
    if n > 0 {
        words_of_val(x, n - 1);
        let p = p2(64 * (n - 1));
        p2_pos(64 * (n - 1));
        p2_add(64 * (n - 1), 64);
        p2_64();
        let a = words_of(x, n - 1);
        let s = words_of(x, n);
        vval_ext(a, s, n - 1);
        let q = (x / p) % 0x1_0000_0000_0000_0000;
        assert(s[n - 1] == q);
        lemma_breakdown(x, p, p2(64));
        assert(p * (q as u64 as int) == (q as u64 as int) * p) by (nonlinear_arith);
    } else {
        lemma2_to64(); assert(x % 1 == 0);
    }
}
pub proof fn words_of_is(s: Seq<u64>)
    ensures words_of(val(s), s.len() as int) == s,
{
    vval_bound(s, s.len() as int);
    words_of_val(val(s), s.len() as int);
    lemma_small_mod(val(s) as nat, p2(64 * s.len() as int) as nat);
    val_inj(words_of(val(s), s.len() as int), s);
}
/// more numbers than members of a set: one is mapped outside
pub proof fn pigeon<T>(f: spec_fn(int) -> T, c: int, d: Set<T>)
    requires 0 <= c, forall|i: int| 0 <= i < c ==> d.contains(#[trigger] f(i)), forall|i: int, j: int| 0 <= i < j < c ==> #[trigger] f(i) != #[trigger] f(j),
    ensures c <= d.len(),
    decreases c,
{
    if c > 0 {
        let e = d.remove(f(c - 1));
        assert forall|i: int| 0 <= i < c - 1 implies e.contains(#[trigger] f(i)) by { assert(f(i) != f(c - 1)); }
        pigeon(f, c - 1, e);
        assert(d.contains(f(c - 1)));
    }
}
/// the words of different indices differ
pub proof fn key_eq(s: Seq<u64>, iw: int, n: int)
    requires 0 <= iw, wfw(s, iw), 0 <= n < p2(iw),
    ensures (words_of(n, nw(iw)) == s) == (n == val(s)), wfw(words_of(n, nw(iw)), iw), val(words_of(n, nw(iw))) == n,
{
    words_of_is(s);
    words_of_val(n, nw(iw));
    assert(nw(iw) * 64 >= iw);
    p2_le(iw, 64 * nw(iw));
    lemma_small_mod(n as nat, p2(64 * nw(iw)) as nat);
    wf_from_bound(words_of(n, nw(iw)), iw);
}
pub proof fn words_inj(iw: int, i: int, j: int)
    requires 0 <= iw, 0 <= i < p2(iw), 0 <= j < p2(iw), i != j,
    ensures words_of(i, nw(iw)) != words_of(j, nw(iw)),
{
    p2_le(iw, 64 * nw(iw));
    words_of_val(i, nw(iw));
    words_of_val(j, nw(iw));
    lemma_small_mod(i as nat, p2(64 * nw(iw)) as nat);
    lemma_small_mod(j as nat, p2(64 * nw(iw)) as nat);
}
pub assume_specification[ usize::leading_zeros ](x: usize) -> (r: u32)
    ensures r <= 64, x == 0 ==> r == 64, x > 0 ==> r < 64 && p2(63 - r) <= x < p2(64 - r),
;
pub proof fn ix_width_is(len: int, r: int)
    requires len >= 1, r >= 0, len <= p2(r), r > 0 ==> p2(r - 1) < len,
    ensures ix_width(len) == r,
    decreases r,
{
    p2_64();
    if r == 0 { } else {
        p2_pos(r - 1);
        p2_succ(r - 1);
        if r > 1 { p2_succ(r - 2); }
        ix_width_is((len + 1) / 2, r - 1);
    }
}
pub proof fn ix_width_ok(len: int)
    ensures 0 <= ix_width(len), len <= p2(ix_width(len)), ix_width(len) > 0 ==> p2(ix_width(len) - 1) < len,
        len <= 0x4000_0000_0000_0000 ==> ix_width(len) <= 62, len <= 0x8000_0000 ==> ix_width(len) <= 31,
    decreases len,
{
    p2_64();
    lemma2_to64();
    lemma2_to64_rest();
    if len > 1 {
        ix_width_ok((len + 1) / 2);
        let i = ix_width((len + 1) / 2);
        p2_succ(i);
        if i > 0 { p2_succ(i - 1); }
        if i + 1 > 62 { p2_le(62, i); }
        if i + 1 > 31 { p2_le(31, i); }
    }
}
/// the smallest index width for a number of elements
pub open spec fn ix_width(len: int) -> int
    decreases len,
{
    if len <= 1 { 0 } else { 1 + ix_width((len + 1) / 2) }
}
/// one of the first entries has the key
pub open spec fn in_first<KV, V>(s: Seq<(KV, V)>, i: int, k: KV) -> bool { exists|j: int| 0 <= j < i && (#[trigger] s[j]).0 == k }
pub proof fn in_first_step<KV, V>(s: Seq<(KV, V)>, i: int, k: KV)
    requires 0 <= i < s.len(),
    ensures in_first(s, i + 1, k) == (in_first(s, i, k) || s[i].0 == k),
{
    if in_first(s, i, k) { let j = choose|j: int| 0 <= j < i && (#[trigger] s[j]).0 == k; assert(s[j].0 == k); }
    if in_first(s, i + 1, k) { let j = choose|j: int| 0 <= j < i + 1 && (#[trigger] s[j]).0 == k; assert(s[j].0 == k); }
}
pub proof fn in_first_all<KV, V>(m: Map<KV, V>, s: Seq<(KV, V)>, k: KV)
    requires ent_of(m, s),
    ensures in_first(s, s.len() as int, k) == m.contains_key(k),
{
    if in_first(s, s.len() as int, k) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k; assert(m.contains_key(s[j].0)); }
}
