// ---------------------------------------------------------------------------------------------
// Texts.
// ---------------------------------------------------------------------------------------------
/// the digit of value n (0..16), lower case
pub open spec fn dchar(n: int) -> char { if n < 10 { (48 + n) as char } else { (87 + n) as char } }
/// the value of a digit, 99 when it is none
pub open spec fn dval(c: u8) -> int {
    if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 102 { c - 87 } else if 65 <= c <= 70 { c - 55 } else { 99 }
}
pub open spec fn ipow(r: int, n: int) -> int decreases n { if n <= 0 { 1 } else { r * ipow(r, n - 1) } }
/// the last n digits of v in the given radix
pub open spec fn num_text(v: int, radix: int, n: int) -> Seq<char>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { num_text(v / radix, radix, n - 1).push(dchar(v % radix)) }
}
/// decimal number without leading zeros
pub open spec fn dec_text(v: int) -> Seq<char>
    decreases v,
{
    if v < 10 { seq![dchar(v)] } else { dec_text(v / 10).push(dchar(v % 10)) }
}
/// the text denotes the number v: digits with an optional minus sign
pub open spec fn denotes(t: Seq<char>, radix: int, v: int) -> bool {
    exists|n: int| #[trigger] denotes_n(t, radix, v, n)
}
pub open spec fn denotes_n(t: Seq<char>, radix: int, v: int, n: int) -> bool {
    n >= 0 && if v < 0 { t == seq!['-'] + num_text(-v, radix, n) && -v < ipow(radix, n) } else { t == num_text(v, radix, n) && v < ipow(radix, n) }
}
/// value of a sequence of digits
pub open spec fn tval(d: Seq<u8>, radix: int) -> int
    decreases d.len(),
{
    if d.len() == 0 { 0 } else { tval(d.drop_last(), radix) * radix + dval(d.last()) }
}
pub open spec fn all_digits(d: Seq<u8>, radix: int) -> bool { forall|i: int| 0 <= i < d.len() ==> dval(#[trigger] d[i]) < radix }
pub open spec fn sb(s: &str) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
pub open spec fn no_minus(b: Seq<u8>) -> Seq<u8> { if b.len() > 0 && b[0] == 45 { b.subrange(1, b.len() as int) } else { b } }
pub open spec fn no_plus(b: Seq<u8>) -> Seq<u8> { if b.len() > 0 && b[0] == 43 { b.subrange(1, b.len() as int) } else { b } }
/// the digits of a number
pub open spec fn num_digits(b: Seq<u8>) -> Seq<u8> { no_plus(no_minus(b)) }
pub open spec fn num_ok(d: Seq<u8>, radix: int) -> bool { d.len() > 0 && all_digits(d, radix) }
/// what a text denotes in width w
pub open spec fn num_val(b: Seq<u8>, radix: int, w: int) -> int {
    let m = tval(num_digits(b), radix);
    if b.len() > 0 && b[0] == 45 { (p2(w) - m) % p2(w) } else { m }
}
pub open spec fn num_parses(b: Seq<u8>, radix: int, w: int) -> bool {
    num_ok(num_digits(b), radix) && tval(num_digits(b), radix) < p2(w)
}

// ---- std functions on texts
pub assume_specification [ String::with_capacity ] (n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty(),
;
pub assume_specification [ char::from_digit ] (n: u32, radix: u32) -> (r: Option<char>)
    requires 2 <= radix <= 36,
    ensures n < radix && n < 16 ==> r == Some(dchar(n as int)), n >= radix ==> r is None,
;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
#[verifier::external_type_specification]
pub struct ExIntErrorKind(std::num::IntErrorKind);
pub assume_specification [ std::num::ParseIntError::kind ] (e: &std::num::ParseIntError) -> (r: &std::num::IntErrorKind);
pub assume_specification [ u64::from_str_radix ] (s: &str, radix: u32) -> (r: Result<u64, std::num::ParseIntError>)
    requires 2 <= radix <= 16,
    ensures
        r is Ok <==> num_ok(no_plus(sb(s)), radix as int) && tval(no_plus(sb(s)), radix as int) <= u64::MAX,
        r is Ok ==> r->Ok_0 == tval(no_plus(sb(s)), radix as int),
;
pub assume_specification [ u128::from_str_radix ] (s: &str, radix: u32) -> (r: Result<u128, std::num::ParseIntError>)
    requires 2 <= radix <= 16,
    ensures
        r is Ok <==> num_ok(no_plus(sb(s)), radix as int) && tval(no_plus(sb(s)), radix as int) <= u128::MAX,
        r is Ok ==> r->Ok_0 == tval(no_plus(sb(s)), radix as int),
;
pub trait VxStr {
    fn vx_strip_prefix(&self, c: char) -> Option<&str>;
    fn vx_starts_with(&self, c: char) -> bool;
}
impl VxStr for str {
    /// `strip_prefix` of a single ASCII character
    #[verifier::external_body]
    fn vx_strip_prefix(&self, c: char) -> (r: Option<&str>)
        ensures (c as u32) < 128 ==> (r is Some <==> (sb(self).len() > 0 && sb(self)[0] == c as u8)),
            (c as u32) < 128 && r is Some ==> sb(r->0) == sb(self).subrange(1, sb(self).len() as int),
    {
        self.strip_prefix(c)
    }
    /// `starts_with` of a single ASCII character
    #[verifier::external_body]
    fn vx_starts_with(&self, c: char) -> (r: bool)
        ensures (c as u32) < 128 ==> r == (sb(self).len() > 0 && sb(self)[0] == c as u8),
    {
        self.starts_with(c)
    }
}
/// `write!(text, "{}", number)`
pub trait VxDisplay: std::fmt::Display + Sized {
    spec fn vx_num(&self) -> int;
}
impl VxDisplay for u64 { open spec fn vx_num(&self) -> int { *self as int } }
impl VxDisplay for u128 { open spec fn vx_num(&self) -> int { *self as int } }
#[verifier::external_body]
pub fn vx_write<T: VxDisplay>(out: &mut String, v: T) -> (r: Result<(), ()>)
    ensures r is Ok, final(out)@ == old(out)@ + dec_text(v.vx_num()),
{
    use std::fmt::Write;
    write!(out, "{}", v).map_err(|_| ())
}
/// `Vec::from(slice)`
pub fn vx_vec_from(s: &[u64]) -> (r: Vec<u64>)
    ensures r@ == s@,
{
    vx_from_slice(s)
}

// ---- printing
pub proof fn num_text_len(v: int, radix: int, n: int)
    requires n >= 0,
    ensures num_text(v, radix, n).len() == n,
    decreases n,
{
    if n > 0 { num_text_len(v / radix, radix, n - 1); }
}
pub open spec fn bit_char(s: Seq<u64>, k: int) -> char { if sbit(s, k) { '1' } else { '0' } }
pub open spec fn bit_text(s: Seq<u64>, w: int) -> Seq<char> { Seq::new(w as nat, |i: int| bit_char(s, w - 1 - i)) }
pub open spec fn nib(s: Seq<u64>, j: int) -> int { (val(s) / p2(4 * j)) % 16 }
pub open spec fn hex_text(s: Seq<u64>, n: int) -> Seq<char> { Seq::new(n as nat, |i: int| dchar(nib(s, n - 1 - i))) }

pub proof fn bit_text_num(s: Seq<u64>, w: int)
    requires w >= 0,
    ensures bit_text(s, w) == num_text(val(s), 2, w),
{
    vval_bound(s, s.len() as int);
    p2_64();
    assert(val(s) / p2(0) == val(s));
    bit_text_rec(s, w, 0);
    assert(bit_text(s, w) =~= Seq::new(w as nat, |i: int| bit_char(s, 0 + w - 1 - i)));
}
pub proof fn bit_text_rec(s: Seq<u64>, w: int, m: int)
    requires w >= 0, m >= 0,
    ensures Seq::new(w as nat, |i: int| bit_char(s, m + w - 1 - i)) == num_text(val(s) / p2(m), 2, w),
    decreases w,
{
    let t = Seq::new(w as nat, |i: int| bit_char(s, m + w - 1 - i));
    if w > 0 {
        bit_text_rec(s, w - 1, m + 1);
        vval_bound(s, s.len() as int);
        p2_succ(m); p2_pos(m);
        vstd::arithmetic::div_mod::lemma_div_denominator(val(s), p2(m), 2);
        assert(p2(m) * 2 == 2 * p2(m));
        val_bit(s, m);
        let x = val(s) / p2(m);
        assert(nbit(val(s), m) == (x % 2 == 1));
        assert(0 <= x % 2 < 2);
        assert(dchar(0) == '0' && dchar(1) == '1');
        assert(t =~= Seq::new((w - 1) as nat, |i: int| bit_char(s, m + 1 + (w - 1) - 1 - i)).push(dchar(x % 2)));
    } else {
        assert(t =~= Seq::<char>::empty());
    }
}
pub proof fn hex_text_num(s: Seq<u64>, n: int)
    requires n >= 0,
    ensures hex_text(s, n) == num_text(val(s), 16, n),
{
    vval_bound(s, s.len() as int);
    p2_64();
    assert(val(s) / p2(0) == val(s));
    hex_text_rec(s, n, 0);
    assert(hex_text(s, n) =~= Seq::new(n as nat, |i: int| dchar(nib(s, 0 + n - 1 - i))));
}
pub proof fn hex_text_rec(s: Seq<u64>, n: int, m: int)
    requires n >= 0, m >= 0,
    ensures Seq::new(n as nat, |i: int| dchar(nib(s, m + n - 1 - i))) == num_text(val(s) / p2(4 * m), 16, n),
    decreases n,
{
    let t = Seq::new(n as nat, |i: int| dchar(nib(s, m + n - 1 - i)));
    if n > 0 {
        hex_text_rec(s, n - 1, m + 1);
        vval_bound(s, s.len() as int);
        p2_64();
        p2_add(4 * m, 4); p2_pos(4 * m);
        vstd::arithmetic::div_mod::lemma_div_denominator(val(s), p2(4 * m), 16);
        assert(4 * m + 4 == 4 * (m + 1));
        assert(t =~= Seq::new((n - 1) as nat, |i: int| dchar(nib(s, m + 1 + (n - 1) - 1 - i))).push(dchar(nib(s, m))));
    } else {
        assert(t =~= Seq::<char>::empty());
    }
}
/// four bits of a word
pub proof fn nib_word(s: Seq<u64>, i: int, d: u32)
    requires 0 <= i < s.len(), d < 16,
    ensures ((s[i] >> ((4 * d) as u32)) & 15) as int == nib(s, 16 * i + d), 0 <= nib(s, 16 * i + d) < 16,
{
    let x = s[i];
    let sh = (4 * d) as u32;
    let y = (x >> sh) & 15;
    let j = 16 * i + d;
    assert(y < 16) by (bit_vector) requires y == (x >> sh) & 15;
    vval_bound(s, s.len() as int);
    p2_64();
    let q = val(s) / p2(4 * j);
    p2_pos(4 * j);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(val(s), p2(4 * j));
    assert forall|k: int| 0 <= k < 4 implies #[trigger] nbit(y as int, k) == nbit(q % 16, k) by {
        w_nbit(y, k);
        nbit_mod(q, 4, k);
        nbit_div(val(s), 4 * j, k);
        val_bit(s, k + 4 * j);
        b_shr(x, sh, k);
        b_and(x >> sh, 15, k);
        let n = k as u64;
        assert((15u64 >> n) & 1 == 1) by (bit_vector) requires n < 4;
        assert((k + 4 * j) / 64 == i && (k + 4 * j) % 64 == k + 4 * d) by { assert(k + 4 * j == 64 * i + (k + 4 * d)); }
    }
    nat_ext(y as int, q % 16, 4);
}
pub proof fn ipow_p2(b: int, n: int)
    requires b >= 0, n >= 0,
    ensures ipow(p2(b), n) == p2(b * n),
    decreases n,
{
    p2_64();
    if n > 0 { ipow_p2(b, n - 1); p2_add(b, b * (n - 1)); assert(b + b * (n - 1) == b * n) by (nonlinear_arith); }
    else { assert(b * n == 0) by (nonlinear_arith) requires n == 0; }
}

// ---- parsing
/// bit k of a sequence of digits of b bits each
pub open spec fn dbit(d: Seq<u8>, b: int, k: int) -> bool { 0 <= k < b * d.len() && nbit(dval(d[d.len() - 1 - k / b]), k % b) }
pub proof fn tval_bound(d: Seq<u8>, b: int)
    requires all_digits(d, p2(b)), b >= 0,
    ensures 0 <= tval(d, p2(b)) < p2(b * d.len()),
    decreases d.len(),
{
    p2_64();
    let n = d.len() as int;
    if n > 0 {
        let e = d.drop_last();
        assert(all_digits(e, p2(b)));
        tval_bound(e, b);
        p2_add(b * (n - 1), b);
        assert(b * (n - 1) + b == b * n) by (nonlinear_arith);
        let (x, y, p, q) = (tval(e, p2(b)), dval(d.last()), p2(b), p2(b * (n - 1)));
        assert(d[n - 1] == d.last());
        p2_pos(b);
        assert(0 <= x * p + y < q * p) by (nonlinear_arith) requires 0 <= x < q, 0 <= y < p, p > 0;
    } else {
        assert(b * n == 0) by (nonlinear_arith) requires n == 0;
    }
}
pub proof fn tval_bit(d: Seq<u8>, b: int, k: int)
    requires all_digits(d, p2(b)), b >= 1, k >= 0,
    ensures nbit(tval(d, p2(b)), k) == dbit(d, b, k),
    decreases d.len(),
{
    let n = d.len() as int;
    if n > 0 {
        let e = d.drop_last();
        assert(all_digits(e, p2(b)));
        assert(d[n - 1] == d.last());
        tval_bound(e, b);
        let y = dval(d.last());
        nbit_split(y, tval(e, p2(b)), b, k);
        if k < b {
            assert(k / b == 0 && k % b == k) by (nonlinear_arith) requires 0 <= k < b;
            assert(b * n >= b) by (nonlinear_arith) requires n >= 1, b >= 1;
        } else {
            tval_bit(e, b, k - b);
            assert((k - b) / b == k / b - 1 && (k - b) % b == k % b) by {
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, b);
                let j = k / b;
                assert(k - b == (j - 1) * b + k % b) by (nonlinear_arith) requires k == b * j + k % b;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k - b, b, k / b - 1, k % b);
            }
            assert(b * (n - 1) == b * n - b) by (nonlinear_arith);
            if k < b * n {
                let j = k / b;
                assert(j < n) by (nonlinear_arith) requires j == k / b, k < b * n, b >= 1;
                assert(j >= 1) by (nonlinear_arith) requires j == k / b, k >= b, b >= 1;
                assert(e[e.len() - 1 - (j - 1)] == d[n - 1 - j]);
            }
        }
    } else {
        assert(b * n == 0) by (nonlinear_arith) requires n == 0;
        p2_64();
        nbit_high(0, 0, k);
    }
}
pub proof fn tval_words(d: Seq<u8>, b: int, s: Seq<u64>)
    requires all_digits(d, p2(b)), b >= 1, forall|k: int| #[trigger] sbit(s, k) == dbit(d, b, k),
    ensures val(s) == tval(d, p2(b)),
{
    let n = 64 * s.len() + b * d.len();
    assert(b * d.len() >= 0) by (nonlinear_arith) requires b >= 1;
    tval_bound(d, b); vval_bound(s, s.len() as int);
    p2_le(64 * s.len() as int, n); p2_le(b * d.len(), n);
    assert forall|k: int| 0 <= k < n implies #[trigger] nbit(val(s), k) == nbit(tval(d, p2(b)), k) by {
        tval_bit(d, b, k); val_bit(s, k); assert(sbit(s, k) == dbit(d, b, k));
    }
    nat_ext(val(s), tval(d, p2(b)), n);
}
/// the first digit decides how many bits the number has
pub proof fn tval_lead(d: Seq<u8>, b: int, f: int)
    requires all_digits(d, p2(b)), b >= 1, d.len() >= 1, 0 <= f < b, p2(f) <= dval(d[0]) < p2(f + 1),
    ensures p2(b * (d.len() - 1) + f) <= tval(d, p2(b)) < p2(b * (d.len() - 1) + f + 1),
    decreases d.len(),
{
    let n = d.len() as int;
    let p = p2(b);
    p2_pos(b);
    let y = dval(d.last());
    assert(d[n - 1] == d.last());
    let e = d.drop_last();
    assert(tval(d, p) == tval(e, p) * p + y);
    if n == 1 {
        assert(tval(e, p) == 0);
        assert(0 * p == 0);
        assert(b * 0 == 0);
    } else {
        assert(all_digits(e, p));
        assert(e[0] == d[0]);
        tval_lead(e, b, f);
        let k = b * (n - 2) + f;
        assert(b * (n - 2) >= 0) by (nonlinear_arith) requires b >= 1, n >= 2;
        p2_add(k, b); p2_add(k + 1, b);
        assert(k + b == b * (n - 1) + f) by (nonlinear_arith) requires k == b * (n - 2) + f;
        let (x, l, h) = (tval(e, p), p2(k), p2(k + 1));
        assert(l * p <= x * p + y < h * p) by (nonlinear_arith) requires l <= x < h, 0 <= y < p, p > 0;
    }
}
/// leading zeros do not matter
pub proof fn tval_zeros(d: Seq<u8>, z: int, radix: int)
    requires 0 <= z <= d.len(), forall|i: int| 0 <= i < z ==> #[trigger] d[i] == 48, radix >= 1,
    ensures tval(d, radix) == tval(d.subrange(z, d.len() as int), radix), all_digits(d, radix) == all_digits(d.subrange(z, d.len() as int), radix),
    decreases d.len(),
{
    let n = d.len() as int;
    let r = d.subrange(z, n);
    if z == n {
        tval_all_zero(d, radix);
    } else {
        let e = d.drop_last();
        assert(e.subrange(z, n - 1) =~= r.drop_last());
        assert(r.last() == d.last());
        tval_zeros(e, z, radix);
    }
    assert(dval(48) == 0);
    if all_digits(r, radix) {
        assert forall|i: int| 0 <= i < n implies dval(#[trigger] d[i]) < radix by { if i >= z { assert(r[i - z] == d[i]); } }
    }
    if all_digits(d, radix) {
        assert forall|i: int| 0 <= i < r.len() implies dval(#[trigger] r[i]) < radix by { assert(r[i] == d[i + z]); }
    }
}
pub proof fn tval_all_zero(d: Seq<u8>, radix: int)
    requires forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == 48,
    ensures tval(d, radix) == 0,
    decreases d.len(),
{
    if d.len() > 0 { tval_all_zero(d.drop_last(), radix); assert(d.last() == 48); assert(0 * radix == 0); }
}
// ---- printing and parsing fit together
pub open spec fn ascii(t: Seq<char>) -> Seq<u8> { Seq::new(t.len(), |i: int| t[i] as u8) }
pub proof fn num_text_val(v: int, radix: int, n: int)
    requires 2 <= radix <= 16, n >= 0, 0 <= v < ipow(radix, n),
    ensures all_digits(ascii(num_text(v, radix, n)), radix), tval(ascii(num_text(v, radix, n)), radix) == v,
        forall|i: int| 0 <= i < n ==> (#[trigger] num_text(v, radix, n)[i]) as u32 <= 127,
    decreases n,
{
    let t = num_text(v, radix, n);
    num_text_len(v, radix, n);
    if n > 0 {
        let q = v / radix;
        let p = ipow(radix, n - 1);
        assert(q < p) by (nonlinear_arith) requires q == v / radix, v < radix * p, radix >= 2;
        assert(q >= 0) by (nonlinear_arith) requires q == v / radix, v >= 0, radix >= 2;
        num_text_val(q, radix, n - 1);
        num_text_len(q, radix, n - 1);
        let u = num_text(q, radix, n - 1);
        let m = v % radix;
        assert(0 <= m < radix);
        assert(t == u.push(dchar(m)));
        assert(dval(dchar(m) as u8) == m);
        assert(ascii(t) =~= ascii(u).push(dchar(m) as u8));
        assert(ascii(t).drop_last() =~= ascii(u));
        assert(ascii(t).last() == dchar(m) as u8);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, radix);
        assert(radix * q == q * radix) by (nonlinear_arith);
        assert forall|i: int| 0 <= i < n implies (#[trigger] t[i]) as u32 <= 127 by { if i < n - 1 { assert(t[i] == u[i]); } else { assert(t[i] == dchar(m)); } }
        assert forall|i: int| 0 <= i < n implies dval(#[trigger] ascii(t)[i]) < radix by { if i < n - 1 { assert(ascii(t)[i] == ascii(u)[i]); } }
    } else {
        assert(v == 0);
    }
}
pub proof fn sub_val(s: Seq<u64>, w: int)
    requires w >= 0, s.len() >= nw(w), val(s) < p2(w),
    ensures val(s.subrange(0, nw(w))) == val(s),
{
    let t = s.subrange(0, nw(w));
    vval_bound(s, s.len() as int);
    assert forall|k: int| #[trigger] sbit(s, k) == sbit(t, k) by {
        if k >= w { if k >= 0 { val_bit(s, k); nbit_high(val(s), w, k); } if 0 <= k < 64 * t.len() { assert(s[k / 64] == t[k / 64]); } }
        else if k >= 0 { assert(s[k / 64] == t[k / 64]); }
    }
    assert forall|k: int| #[trigger] sbit(t, k) == sbit(s, k) by { assert(sbit(s, k) == sbit(t, k)); }
    val_ext(t, s);
}
pub proof fn text_bound(v: int, w: int, b: int, n: int)
    requires 0 <= v < p2(w), w >= 0, b == 1 || b == 4, n == (w + b - 1) / b,
    ensures v < ipow(p2(b), n), p2(1) == 2, p2(4) == 16,
{
    p2_64();
    ipow_p2(b, n);
    p2_le(w, b * n);
}
/// the magnitude of a negative number
pub proof fn neg_mag(s: Seq<u64>, c: Seq<u64>, w: int)
    requires w >= 1, wfw(s, w), wfw(c, w), sbit(s, w - 1), val(c) == (-val(s)) % p2(w),
    ensures val(c) == -sval(s, w), val(c) < p2(w), val(c) > 0, !sbit(c, w - 1) ==> val(c) < p2(w - 1),
{
    sign_half(s, w); sign_half(c, w);
    p2_pos(w - 1);
    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(-val(s), p2(w));
    vstd::arithmetic::div_mod::lemma_small_mod((p2(w) - val(s)) as nat, p2(w) as nat);
}
pub proof fn two_words(s: Seq<u64>)
    requires s.len() >= 2, forall|i: int| 2 <= i < s.len() ==> s[i] == 0,
    ensures val(s) == s[0] + s[1] * 0x1_0000_0000_0000_0000,
{
    two_words_n(s, s.len() as int);
}
pub proof fn two_words_n(s: Seq<u64>, n: int)
    requires n >= 2, forall|i: int| 2 <= i < n ==> s[i] == 0,
    ensures vval(s, n) == s[0] + s[1] * 0x1_0000_0000_0000_0000,
    decreases n,
{
    p2_64();
    if n == 2 { vval_low(s, 1); reveal_with_fuel(vval, 3); }
    else { two_words_n(s, n - 1); assert(s[n - 1] * p2(64 * (n - 1)) == 0) by (nonlinear_arith) requires s[n - 1] == 0; }
}
pub open spec fn text_width(b: Seq<u8>, radix: int) -> int {
    let n = if b.len() > 0 && (b[0] == 43 || b[0] == 45) { b.len() - 1 } else { b.len() as int };
    n * (if radix == 2 { 1int } else { 4 }) + (if b.len() > 0 && b[0] == 45 { 1int } else { 0 })
}
pub proof fn clz8(x: u8, l: int)
    requires 1 <= x < 16, l == if x >= 8 { 3int } else if x >= 4 { 2 } else if x >= 2 { 1 } else { 0int },
    ensures vstd::std_specs::bits::u8_leading_zeros(x) == 7 - l,
{
    vstd::std_specs::bits::axiom_u8_leading_zeros(x);
    let z = vstd::std_specs::bits::u8_leading_zeros(x);
    let t = (7 - z) as u8;
    assert((x >> (7 - z)) & 1u8 != 0);
    assert((x >> t) & 1u8 != 0);
    assert(t < 1 ==> (x >> 1u8) & 1 == 0);
    assert(t < 2 ==> (x >> 2u8) & 1 == 0);
    assert(t < 3 ==> (x >> 3u8) & 1 == 0);
    assert(t <= 3 && (t == 3 <==> x >= 8) && (t == 2 <==> 4 <= x < 8) && (t == 1 <==> 2 <= x < 4)) by (bit_vector)
        requires x < 16, x >= 1, t <= 7, (x >> t) & 1u8 != 0, t < 1 ==> (x >> 1u8) & 1 == 0, t < 2 ==> (x >> 2u8) & 1 == 0, t < 3 ==> (x >> 3u8) & 1 == 0;
}
pub proof fn mask_is(w: u32)
    requires 1 <= w <= 64,
    ensures is_mask((p2(w as int) - 1) as u64, w), 0 <= p2(w as int) - 1 <= u64::MAX,
{
    p2_64(); p2_pos(w as int); p2_le(w as int, 64);
    let m = (p2(w as int) - 1) as u64;
    assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(m, k) == (k < w) by {
        w_nbit(m, k);
        not_bits(0, w as int, k);
        nbit_high(0, 0, k);
    }
}
pub proof fn tval_nonneg(d: Seq<u8>, radix: int)
    requires radix >= 0,
    ensures tval(d, radix) >= 0,
    decreases d.len(),
{
    if d.len() > 0 { tval_nonneg(d.drop_last(), radix); let x = tval(d.drop_last(), radix); assert(x * radix >= 0) by (nonlinear_arith) requires x >= 0, radix >= 0; }
}
/// printed text parses back to the number it was printed from (C10)
pub proof fn print_parse(v: int, radix: int, n: int, w: int)
    requires 2 <= radix <= 16, n >= 1, 0 <= v < ipow(radix, n), v < p2(w),
    ensures ({ let b = vstd::utf8::encode_utf8(num_text(v, radix, n)); num_parses(b, radix, w) && num_val(b, radix, w) == v && text_width(b, 2) == n && text_width(b, 16) == 4 * n }),
{
    let t = num_text(v, radix, n);
    num_text_len(v, radix, n);
    num_text_val(v, radix, n);
    let b = vstd::utf8::encode_utf8(t);
    assert(vstd::utf8::is_ascii_chars(t)) by {
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) as u32 <= 127 by {}
    }
    vstd::utf8::is_ascii_chars_encode_utf8(t);
    assert(b =~= ascii(t));
    assert(b[0] == ascii(t)[0]);
    assert(dval(b[0]) < radix);
    assert(num_digits(b) == b);
}
pub open spec fn dec_len(v: int) -> int decreases v { if v < 10 { 1 } else { 1 + dec_len(v / 10) } }
pub proof fn dec_num_text(v: int)
    requires v >= 0,
    ensures dec_text(v) == num_text(v, 10, dec_len(v)), v < ipow(10, dec_len(v)), dec_len(v) >= 1,
    decreases v,
{
    if v < 10 {
        reveal_with_fuel(num_text, 2); reveal_with_fuel(ipow, 2);
        assert(num_text(v, 10, 1) =~= seq![dchar(v)]);
    } else {
        dec_num_text(v / 10);
        assert(ipow(10, dec_len(v)) == 10 * ipow(10, dec_len(v / 10)));
    }
}
// one more character of `t`
pub proof fn text_push(o0: Seq<char>, t: Seq<char>, i: int, o: Seq<char>)
    requires 0 <= i < t.len(), o == (o0 + t.subrange(0, i)).push(t[i]),
    ensures o == o0 + t.subrange(0, i + 1),
{
    assert(t.subrange(0, i + 1) =~= t.subrange(0, i).push(t[i]));
    assert(o =~= o0 + t.subrange(0, i + 1));
}
pub proof fn hex_count(w: int)
    requires w >= 0,
    ensures (w + 3) / 4 == (if w % 64 == 0 { 16 * nw(w) } else { 16 * (nw(w) - 1) + (w % 64 + 3) / 4 }),
{}
// the digit at place `i` of the text is nibble `d` of word `j`
pub proof fn hex_place(s: Seq<u64>, n: int, i: int, j: int, d: u32)
    requires 0 <= j < s.len(), d < 16, 0 <= i < n, n - 1 - i == 16 * j + d,
    ensures hex_text(s, n)[i] == dchar(((s[j] >> ((4 * d) as u32)) & 15) as int), ((s[j] >> ((4 * d) as u32)) & 15) < 16,
{
    nib_word(s, j, d);
}
