// ---------------------------------------------------------------------------------------------
// num-bigint: external types with assumed contracts. A number is its normalised 64-bit digits
// (no leading zero digit) and a sign.
// ---------------------------------------------------------------------------------------------
/// value of the first `n` 32-bit words
pub open spec fn vval32(s: Seq<u32>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { vval32(s, n - 1) + s[n - 1] * p2(32 * (n - 1)) }
}
pub open spec fn val32(s: Seq<u32>) -> int { vval32(s, s.len() as int) }
pub open spec fn big_norm(d: Seq<u64>) -> bool { d.len() > 0 ==> d[d.len() - 1] != 0 }
/// the number of bits of a magnitude
pub open spec fn bit_len(m: int, n: int) -> bool { m >= 0 && n >= 0 && m < p2(n) && (m > 0 ==> n >= 1 && p2(n - 1) <= m) && (m == 0 ==> n == 0) }

pub mod num_bigint {
    use super::*;
    pub enum Sign { Minus, NoSign, Plus }
    impl Clone for Sign { fn clone(&self) -> (r: Sign) ensures r == *self { *self } }
    impl Copy for Sign {}
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Sign {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Sign) -> bool { *self == *o }
    }
    impl PartialEq for Sign {
        fn eq(&self, o: &Sign) -> (r: bool) {
            match (*self, *o) {
                (Sign::Minus, Sign::Minus) => true,
                (Sign::NoSign, Sign::NoSign) => true,
                (Sign::Plus, Sign::Plus) => true,
                _ => false,
            }
        }
    }
    #[verifier::external_body]
    pub struct BigUint { x: Vec<u64> }
    #[verifier::external_body]
    pub struct BigInt { x: Vec<u64> }
    impl BigUint {
        pub uninterp spec fn digits(&self) -> Seq<u64>;
        pub open spec fn bv(&self) -> int { val(self.digits()) }
        #[verifier::external_body]
        pub fn from_slice(s: &[u32]) -> (r: BigUint)
            ensures r.bv() == val32(s@), big_norm(r.digits()),
        { unimplemented!() }
    }
    impl BigInt {
        pub uninterp spec fn digits(&self) -> Seq<u64>;
        pub uninterp spec fn sg(&self) -> Sign;
        pub open spec fn bv(&self) -> int { if self.sg() == Sign::Minus { -val(self.digits()) } else { val(self.digits()) } }
        #[verifier::external_body]
        pub fn from_slice(sign: Sign, s: &[u32]) -> (r: BigInt)
            ensures r.bv() == match sign { Sign::Minus => -val32(s@), Sign::NoSign => 0, Sign::Plus => val32(s@) },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn from(v: i32) -> (r: BigInt)
            ensures r.bv() == v,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn sign(&self) -> (r: Sign)
            ensures r == self.sg(), (r == Sign::NoSign) == (self.digits().len() == 0),
        { unimplemented!() }
    }
}
/// `BigUint::iter_u64_digits` / `BigInt::iter_u64_digits` (collected)
pub trait VxDigits {
    spec fn vx_digits(&self) -> Seq<u64>;
    fn vx_u64_digits(&self) -> (r: Vec<u64>)
        ensures r@ == self.vx_digits(), big_norm(r@),
    ;
}
impl VxDigits for num_bigint::BigUint {
    open spec fn vx_digits(&self) -> Seq<u64> { self.digits() }
    #[verifier::external_body]
    fn vx_u64_digits(&self) -> (r: Vec<u64>) { unimplemented!() }
}
impl VxDigits for num_bigint::BigInt {
    open spec fn vx_digits(&self) -> Seq<u64> { self.digits() }
    #[verifier::external_body]
    fn vx_u64_digits(&self) -> (r: Vec<u64>) { unimplemented!() }
}
pub fn vx_u64_digits<T: VxDigits>(v: &T) -> (r: Vec<u64>)
    ensures r@ == v.vx_digits(), big_norm(r@),
{ v.vx_u64_digits() }

pub proof fn val32_pair(a: Seq<u32>, b: Seq<u32>, s: Seq<u64>, i: int)
    requires i >= 0, a.len() == 2 * i, b == a.push(s[i] as u32).push((s[i] >> 32) as u32), vval32(a, 2 * i) == vval(s, i),
    ensures vval32(b, 2 * i + 2) == vval(s, i + 1),
{
    vval32_ext(a, b, 2 * i);
    let x = s[i];
    let (l, h) = (x as u32, (x >> 32) as u32);
    assert(x == l as u64 + (h as u64) * 0x1_0000_0000) by (bit_vector) requires l == x as u32, h == (x >> 32) as u32;
    p2_64(); p2_add(64 * i, 32);
    let p = p2(64 * i);
    assert(32 * (2 * i) == 64 * i);
    assert(32 * (2 * i + 1) == 64 * i + 32);
    assert(vval32(b, 2 * i + 1) == vval32(b, 2 * i) + b[2 * i] * p);
    assert(vval32(b, 2 * i + 2) == vval32(b, 2 * i + 1) + b[2 * i + 1] * p2(64 * i + 32));
    assert(l * p + h * (p * 0x1_0000_0000) == x * p) by (nonlinear_arith) requires x == l + h * 0x1_0000_0000;
}
pub proof fn vval32_ext(a: Seq<u32>, b: Seq<u32>, n: int)
    requires forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures vval32(a, n) == vval32(b, n),
    decreases n,
{ if n > 0 { vval32_ext(a, b, n - 1); } }
/// the leading digit decides the number of bits
pub proof fn big_bits(d: Seq<u64>)
    requires d.len() > 0, d[d.len() - 1] != 0,
    ensures ({
        let z = vstd::std_specs::bits::u64_leading_zeros(d[d.len() - 1]);
        z <= 63 && bit_len(val(d), 64 * d.len() - z) && val(d) > 0
    }),
{
    let n = d.len() as int;
    let x = d[n - 1];
    vstd::std_specs::bits::axiom_u64_leading_zeros(x);
    let z = vstd::std_specs::bits::u64_leading_zeros(x);
    let t = (63 - z) as u64;
    assert((x >> (63 - z)) & 1u64 != 0);
    assert((x >> t) & 1u64 != 0);
    if z > 0 {
        assert(x >> (64 - z) == 0);
        assert(x >> ((64 - z) as u64) == 0);
    }
    let k = 63 - z as int;
    let y = val(d);
    vval_bound(d, n - 1);
    let p = p2(64 * (n - 1));
    p2_pos(64 * (n - 1));
    p2_64();
    p2_pos(k);
    // 2^k <= x < 2^(k+1)
    lemma_u64_shr_is_div(x, t);
    assert((x >> t) != 0) by (bit_vector) requires (x >> t) & 1u64 != 0;
    assert(x as int / p2(k) >= 1);
    assert(x >= p2(k)) by { if x < p2(k) { lemma_basic_div(x as int, p2(k)); } };
    p2_succ(k); p2_pos(k + 1);
    if z > 0 {
        let u = (64 - z) as u64;
        lemma_u64_shr_is_div(x, u);
        assert(x as int / p2(k + 1) == 0);
        lemma_fundamental_div_mod(x as int, p2(k + 1));
        lemma_mod_bound(x as int, p2(k + 1));
        assert(p2(k + 1) * 0 == 0);
    }
    assert(x < p2(k + 1));
    p2_add(64 * (n - 1), k); p2_add(64 * (n - 1), k + 1);
    let v = vval(d, n - 1);
    let (l, h) = (p2(k), p2(k + 1));
    assert(l * p <= v + x * p < h * p) by (nonlinear_arith) requires l <= x < h, 0 <= v < p;
    assert(l * p == p * l && h * p == p * h) by (nonlinear_arith);
    assert(64 * (n - 1) + k + 1 == 64 * n - z);
    p2_pos(64 * (n - 1) + k);
}

/// the low words of `src`, masked / zero extended
pub proof fn iter_trunc(src: Seq<u64>, o: Seq<u64>, r: Seq<u64>, w: int)
    requires w >= 1, r.len() == nw(w), o.len() == nw(w),
        forall|i: int| 0 <= i < o.len() && i < src.len() ==> #[trigger] o[i] == src[i],
        src.len() >= nw(w) ==> forall|k: int| #[trigger] sbit(r, k) == (k < w && sbit(o, k)),
        src.len() < nw(w) ==> r == o && forall|i: int| src.len() <= i < o.len() ==> #[trigger] o[i] == 0,
    ensures wfw(r, w), val(r) == val(src) % p2(w),
{
    if src.len() >= nw(w) {
        assert forall|k: int| #[trigger] sbit(r, k) == (k < w && sbit(src, k)) by {
            assert(sbit(r, k) == (k < w && sbit(o, k)));
            if 0 <= k < w { assert(o[k / 64] == src[k / 64]); }
        }
    } else {
        vval_bound(src, src.len() as int);
        p2_le(64 * src.len() as int, w);
        assert forall|k: int| #[trigger] sbit(r, k) == sbit(src, k) by {
            if 0 <= k < 64 * src.len() { assert(o[k / 64] == src[k / 64]); }
            else if 0 <= k < 64 * o.len() { assert(o[k / 64] == 0); w_zerobit(k % 64); }
        }
        val_ext(r, src);
        lemma_small_mod(val(src) as nat, p2(w) as nat);
        wf_from_bound(r, w);
        assert forall|k: int| #[trigger] sbit(r, k) == (k < w && sbit(src, k)) by { }
    }
    val_mask(src, r, w);
    assert(wfw(r, w));
}
pub proof fn neg_mod(m: int, x: int, w: int)
    requires w >= 0, x == m % p2(w),
    ensures (-x) % p2(w) == (-m) % p2(w),
{
    p2_pos(w);
    lemma_fundamental_div_mod(m, p2(w));
    lemma_mod_multiples_vanish(-(m / p2(w)), -x, p2(w));
    assert(p2(w) * (-(m / p2(w))) == -(p2(w) * (m / p2(w)))) by (nonlinear_arith);
}

pub open spec fn mag(v: int) -> int { if v < 0 { -v } else { v } }
/// the bit-vector a big integer converts to when no width is given: it denotes the same number
pub open spec fn big_int_vec(p: (u32, Seq<u64>), v: int) -> bool {
    p.0 >= 1 && bit_len(mag(v), p.0 - 1) && wfw(p.1, p.0 as int) && sval(p.1, p.0 as int) == v
}
pub open spec fn big_uint_vec(p: (u32, Seq<u64>), v: int) -> bool {
    bit_len(v, p.0 as int) && wfw(p.1, p.0 as int) && val(p.1) == v
}
pub proof fn bit_len_uniq(m: int, a: int, b: int)
    requires bit_len(m, a), bit_len(m, b),
    ensures a == b,
{
    if a < b { p2_le(a, b - 1); }
    if b < a { p2_le(b, a - 1); }
}
pub proof fn big_int_uniq(p: (u32, Seq<u64>), v: int)
    requires p.0 >= 1, bit_len(mag(v), p.0 - 1), wfw(p.1, p.0 as int), val(p.1) == v % p2(p.0 as int),
    ensures big_int_vec(p, v), p == (choose|p: (u32, Seq<u64>)| big_int_vec(p, v)),
{
    let w = p.0 as int;
    sign_half(p.1, w);
    p2_pos(w - 1);
    if v >= 0 { lemma_small_mod(v as nat, p2(w) as nat); } else {
        lemma_mod_add_multiples_vanish(v, p2(w));
        lemma_small_mod((v + p2(w)) as nat, p2(w) as nat);
    }
    assert(sval(p.1, w) == v);
    assert(big_int_vec(p, v));
    let q = choose|p: (u32, Seq<u64>)| big_int_vec(p, v);
    assert(big_int_vec(q, v));
    bit_len_uniq(mag(v), p.0 - 1, q.0 - 1);
    sign_half(q.1, w);
    val_inj(p.1, q.1);
}
pub proof fn big_uint_uniq(p: (u32, Seq<u64>), v: int)
    requires bit_len(v, p.0 as int), wfw(p.1, p.0 as int), val(p.1) == v % p2(p.0 as int),
    ensures big_uint_vec(p, v), p == (choose|p: (u32, Seq<u64>)| big_uint_vec(p, v)),
{
    lemma_small_mod(v as nat, p2(p.0 as int) as nat);
    assert(big_uint_vec(p, v));
    let q = choose|p: (u32, Seq<u64>)| big_uint_vec(p, v);
    assert(big_uint_vec(q, v));
    bit_len_uniq(v, p.0 as int, q.0 as int);
    val_inj(p.1, q.1);
}
