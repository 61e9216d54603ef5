//! Samples the assumed contracts of the dependencies (std, HashMap, smallvec, num-bigint, fraction) against
//! the real ones. This proves nothing: it is bounded evidence that the statements the proofs take for granted are true.
use crate::core::Gen;
use fraction::GenericFraction;
use num_bigint::{BigInt, BigUint, Sign};
use smallvec::SmallVec;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::fmt::Write;
use std::hash::{Hash, Hasher};

type T = fn(&mut Gen) -> Result<(), String>;
pub const ITEMS: &[(&str, T)] = &[
    ("u32::div_ceil, usize::div_ceil", div_ceil),
    ("u64::overflowing_add, u64::overflowing_mul", overflowing),
    ("u64::checked_shl", checked_shl),
    ("leading_zeros", leading_zeros),
    ("<[T]>::clone_from_slice, Option::copied, Box<[T]>::from", copies),
    ("char::from_digit, String::with_capacity", digits),
    ("u64::from_str_radix, u128::from_str_radix", parse),
    ("str::strip_prefix, str::starts_with", prefix),
    ("write! of u64 and u128", display),
    ("BigUint/BigInt: from_slice, from, sign, iter_u64_digits", big),
    ("Fraction: new, neg", frac),
    ("HashMap: get, insert, remove, len, clear, contains_key, is_empty, iter, entry, clone, ==", map),
    ("SmallVec<[u64; 2]> is a Vec<u64>", small),
    ("Hash of numbers and word lists", hashing),
];

fn ok(c: bool, what: impl FnOnce() -> String) -> Result<(), String> { if c { Ok(()) } else { Err(what()) } }
fn odd(g: &mut Gen) -> u64 {
    match g.below(6) { 0 => g.below(4), 1 => u64::MAX - g.below(4), 2 => 1u64 << g.below(64), 3 => (1u64 << g.below(64)).wrapping_sub(1), 4 => g.below(1000), _ => g.word() }
}
fn div_ceil(g: &mut Gen) -> Result<(), String> {
    let (a, b) = (odd(g), odd(g));
    let (c, d) = (a as u32, (b as u32).max(1));
    ok(c.div_ceil(d) as i128 == (c as i128 + d as i128 - 1) / d as i128, || format!("{c}.div_ceil({d})"))?;
    let (c, d) = (a as usize, (b as usize).max(1));
    ok(c.div_ceil(d) as i128 == (c as i128 + d as i128 - 1) / d as i128, || format!("{c}.div_ceil({d})"))
}
fn overflowing(g: &mut Gen) -> Result<(), String> {
    let (a, b) = (odd(g), odd(g));
    let (s, p) = (a as u128 + b as u128, a as u128 * b as u128);
    ok(a.overflowing_add(b) == ((s % (1 << 64)) as u64, s >= 1 << 64), || format!("{a} + {b}"))?;
    ok(a.overflowing_mul(b) == ((p % (1 << 64)) as u64, p >= 1 << 64), || format!("{a} * {b}"))
}
fn checked_shl(g: &mut Gen) -> Result<(), String> {
    let (a, b) = (odd(g), g.below(140) as u32);
    let want = if b < 64 { Some((a as u128 * (1u128 << b)) as u64) } else { None };
    ok(a.checked_shl(b) == want, || format!("{a}.checked_shl({b})"))
}
fn leading_zeros(g: &mut Gen) -> Result<(), String> {
    let a = odd(g);
    let z = (0..64).rev().take_while(|i| (a >> i) & 1 == 0).count() as u32;
    ok(a.leading_zeros() == z, || format!("{a}.leading_zeros()"))?;
    ok((a as usize).leading_zeros() == z, || format!("{a}.leading_zeros()"))?;
    let b = a as u8;
    ok(b.leading_zeros() == (0..8).rev().take_while(|i| (b >> i) & 1 == 0).count() as u32, || format!("{b}u8.leading_zeros()"))
}
fn words(g: &mut Gen) -> Vec<u64> { let n = g.below(6); (0..n).map(|_| odd(g)).collect() }
fn copies(g: &mut Gen) -> Result<(), String> {
    let a = words(g);
    let mut d: Vec<u64> = a.iter().map(|_| odd(g)).collect();
    d.clone_from_slice(&a);
    ok((0..a.len()).all(|i| a[i] == d[i]) && a.len() == d.len(), || format!("clone_from_slice {a:?}"))?;
    let b: Box<[u64]> = a.as_slice().into();
    ok(b.len() == a.len() && (0..a.len()).all(|i| a[i] == b[i]), || format!("Box {a:?}"))?;
    ok(match (a.first(), a.first().copied()) { (Some(x), Some(y)) => *x == y, (None, None) => true, _ => false }, || format!("copied {a:?}"))
}
fn digits(g: &mut Gen) -> Result<(), String> {
    let (n, radix) = (g.below(40) as u32, 2 + g.below(35) as u32);
    let c = char::from_digit(n, radix);
    if n >= radix { ok(c.is_none(), || format!("from_digit({n}, {radix})"))?; }
    else if n < 16 { ok(c == Some("0123456789abcdef".as_bytes()[n as usize] as char), || format!("from_digit({n}, {radix})"))?; }
    let s = String::with_capacity(n as usize);
    ok(s.is_empty(), || format!("with_capacity({n})"))
}
fn text(g: &mut Gen, radix: u32) -> String {
    let mut s = String::new();
    match g.below(8) { 0 => s.push('+'), 1 => s.push('-'), 2 => s.push_str("++"), _ => {} }
    let n = match g.below(4) { 0 => g.below(3), 1 => g.below(140), _ => g.below(42) };
    for _ in 0..n { s.push(char::from_digit(g.below(radix as u64) as u32, radix).unwrap()); }
    if g.below(6) == 0 {
        let c = *g.pick(&['+', '-', '_', ' ', 'g', 'G', 'F', '2', '/', ':', '@', '`', 'é', '٣']);
        let k = (0..=s.len()).filter(|k| s.is_char_boundary(*k)).nth(g.below(s.chars().count() as u64 + 1) as usize).unwrap_or(0);
        s.insert(k, c);
    }
    if g.below(4) == 0 { s = s.to_uppercase(); }
    s
}
/// an optional plus sign, one or more digits
fn number(s: &str, radix: u32) -> Option<BigUint> {
    let b = s.as_bytes();
    let b = if b.first() == Some(&b'+') { &b[1..] } else { b };
    if b.is_empty() { return None; }
    let mut v = BigUint::from(0u32);
    for c in b {
        let d = match c { b'0'..=b'9' => c - b'0', b'a'..=b'z' => c - b'a' + 10, b'A'..=b'Z' => c - b'A' + 10, _ => return None } as u32;
        if d >= radix { return None; }
        v = v * radix + d;
    }
    Some(v)
}
fn parse(g: &mut Gen) -> Result<(), String> {
    let radix = *g.pick(&[2, 10, 16, 3, 8, 15]);
    let s = text(g, radix);
    let n = number(&s, radix);
    ok(u64::from_str_radix(&s, radix).ok().map(BigUint::from) == n.clone().filter(|v| *v <= BigUint::from(u64::MAX)), || format!("u64::from_str_radix({s:?}, {radix})"))?;
    ok(u128::from_str_radix(&s, radix).ok().map(BigUint::from) == n.filter(|v| *v <= BigUint::from(u128::MAX)), || format!("u128::from_str_radix({s:?}, {radix})"))
}
fn prefix(g: &mut Gen) -> Result<(), String> {
    let s = text(g, 16);
    let c = *g.pick(&['+', '-', '0', 'f', '\u{7f}']);
    let is = s.as_bytes().first() == Some(&(c as u8));
    ok(s.starts_with(c) == is, || format!("{s:?}.starts_with({c:?})"))?;
    ok(s.strip_prefix(c).map(|t| t.as_bytes()) == if is { Some(&s.as_bytes()[1..]) } else { None }, || format!("{s:?}.strip_prefix({c:?})"))
}
fn display(g: &mut Gen) -> Result<(), String> {
    let v = if g.chance(50) { odd(g) as u128 } else { (odd(g) as u128) << 64 | odd(g) as u128 };
    let mut want = vec![];
    let mut x = v;
    loop { want.push(b'0' + (x % 10) as u8); x /= 10; if x == 0 { break; } }
    want.extend(b"<");
    want.reverse();
    let mut s = String::from("<");
    let r = write!(s, "{}", v);
    ok(r.is_ok() && s.as_bytes() == want, || format!("write {v}"))?;
    if v <= u64::MAX as u128 {
        let mut s = String::from("<");
        let r = write!(s, "{}", v as u64);
        ok(r.is_ok() && s.as_bytes() == want, || format!("write {v} (u64)"))?;
    }
    Ok(())
}
/// value of 32-bit digits as base-256 digits (schoolbook, no big integers)
fn bytes32(d: &[u32]) -> Vec<u8> { let mut r: Vec<u8> = d.iter().flat_map(|x| (0..4).map(move |k| (x >> (8 * k)) as u8)).collect(); while r.last() == Some(&0) { r.pop(); } r }
fn bytes64(d: &[u64]) -> Vec<u8> { let mut r: Vec<u8> = d.iter().flat_map(|x| (0..8).map(move |k| (x >> (8 * k)) as u8)).collect(); while r.last() == Some(&0) { r.pop(); } r }
fn big(g: &mut Gen) -> Result<(), String> {
    let n = g.below(9);
    let d: Vec<u32> = (0..n).map(|_| odd(g) as u32).collect();
    let want = bytes32(&d);
    let u = BigUint::from_slice(&d);
    let dig: Vec<u64> = u.iter_u64_digits().collect();
    ok(bytes64(&dig) == want && dig.last() != Some(&0), || format!("BigUint {d:?}"))?;
    for s in [Sign::Minus, Sign::NoSign, Sign::Plus] {
        let i = BigInt::from_slice(s, &d);
        let dig: Vec<u64> = i.iter_u64_digits().collect();
        let zero = want.is_empty() || s == Sign::NoSign;
        ok(dig.last() != Some(&0) && (i.sign() == Sign::NoSign) == dig.is_empty() && dig.is_empty() == zero, || format!("BigInt {s:?} {d:?}"))?;
        if !zero { ok(bytes64(&dig) == want && i.sign() == s, || format!("BigInt {s:?} {d:?}"))?; }
    }
    let v = odd(g) as i32;
    let i = BigInt::from(v);
    let dig: Vec<u64> = i.iter_u64_digits().collect();
    let m = dig.first().copied().unwrap_or(0) as i128;
    ok(dig.len() <= 1 && v as i128 == if i.sign() == Sign::Minus { -m } else { m }, || format!("BigInt::from({v})"))
}
fn frac(g: &mut Gen) -> Result<(), String> {
    type F = GenericFraction<u64>;
    let (n, d) = (odd(g), odd(g).max(1));
    let is = |f: &F, neg: bool| match (f.numer(), f.denom(), f.sign()) {
        (Some(a), Some(b), s) => *a as u128 * d as u128 == n as u128 * *b as u128 && *b != 0 && (n == 0 || (s == Some(fraction::Sign::Minus)) == neg),
        _ => false,
    };
    let f = F::new(n, d);
    ok(is(&f, false), || format!("Fraction::new({n}, {d})"))?;
    ok(is(&-f, true), || format!("-Fraction::new({n}, {d})"))
}
fn map(g: &mut Gen) -> Result<(), String> {
    let mut m: HashMap<Box<[u64]>, u64> = HashMap::new();
    let mut l: Vec<(Vec<u64>, u64)> = vec![];
    let n = g.below(60);
    for _ in 0..n {
        let k: Vec<u64> = { let n = g.below(3); (0..n).map(|_| g.below(3)).collect() };
        let v = g.below(5);
        let at = l.iter().position(|e| e.0 == k);
        let e = || format!("HashMap, key {k:?}");
        match g.below(9) {
            0 | 1 | 2 => {
                let o = m.insert(k.clone().into_boxed_slice(), v);
                ok(o == at.map(|i| l[i].1), e)?;
                match at { Some(i) => l[i].1 = v, None => l.push((k, v)) }
            }
            3 => {
                let o = m.remove(&k[..]);
                ok(o == at.map(|i| l[i].1), e)?;
                if let Some(i) = at { l.remove(i); }
            }
            4 => ok(m.get(&k[..]).copied() == at.map(|i| l[i].1) && m.contains_key(&k[..]) == at.is_some(), e)?,
            5 | 6 => {
                let r = m.entry(k.clone().into_boxed_slice()).or_insert(v);
                ok(*r == at.map_or(v, |i| l[i].1), e)?;
                *r += 1;
                match at { Some(i) => l[i].1 += 1, None => l.push((k, v + 1)) }
            }
            7 => if g.chance(4) { m.clear(); l.clear(); },
            _ => {
                let c = m.clone();
                ok(c == m, || "a clone is not equal".into())?;
                let k2 = k.clone().into_boxed_slice();
                let mut c2 = c.clone();
                let had = c2.insert(k2, v);
                ok((c2 == m) == (had == Some(v)), || "== of maps".into())?;
                m = c;
            }
        }
        ok(m.len() == l.len() && m.is_empty() == l.is_empty() && m.len() <= 0x3fff_ffff_ffff_ffff, || "len".into())?;
        let mut a: Vec<(Vec<u64>, u64)> = m.iter().map(|(k, v)| (k.to_vec(), *v)).collect();
        let mut b = l.clone();
        a.sort();
        b.sort();
        ok(a == b, || format!("iter: {a:?}, expected {b:?}"))?;
    }
    Ok(())
}
fn small(g: &mut Gen) -> Result<(), String> {
    let mut s: SmallVec<[u64; 2]> = SmallVec::new();
    let mut v: Vec<u64> = vec![];
    for _ in 0..g.below(12) {
        let x = odd(g);
        match g.below(7) {
            0 | 1 => { s.push(x); v.push(x); }
            2 => { let n = g.below(6) as usize; s.resize(n, x); v.resize(n, x); }
            3 => { let w = words(g); s = SmallVec::from_slice(&w); v = w; }
            4 => { s = smallvec::smallvec![x; (x % 5) as usize]; v = vec![x; (x % 5) as usize]; }
            5 => ok(s.pop() == v.pop(), || "pop".into())?,
            _ => { s = s.clone(); if let Some(y) = s.last_mut() { *y = x; } if let Some(y) = v.last_mut() { *y = x; } }
        }
        ok(s.as_slice() == v.as_slice() && s.len() == v.len(), || format!("SmallVec {s:?}, expected {v:?}"))?;
        let t: SmallVec<[u64; 2]> = v.iter().copied().collect();
        ok(s == t, || format!("SmallVec {s:?} == {t:?}"))?;
    }
    Ok(())
}
fn hashing(g: &mut Gen) -> Result<(), String> {
    let a = words(g);
    let h = |f: &dyn Fn(&mut DefaultHasher)| { let mut h = DefaultHasher::new(); f(&mut h); h.finish() };
    let s: SmallVec<[u64; 2]> = SmallVec::from_slice(&a);
    let b: Box<[u64]> = a.clone().into_boxed_slice();
    let want = h(&|h| a[..].hash(h));
    ok(h(&|h| s.hash(h)) == want && h(&|h| b.hash(h)) == want && h(&|h| a.hash(h)) == want, || format!("hash of {a:?}"))?;
    let n = odd(g) as u32;
    ok(h(&|h| n.hash(h)) == h(&|h| h.write_u32(n)), || format!("hash of {n}"))
}

/// `{"item": samples, ...}` or the first statement that turned out wrong
pub fn all(seed: u64, secs: f64) -> Result<Vec<(&'static str, u64)>, String> {
    let each = secs / ITEMS.len() as f64;
    let mut out = vec![];
    for (name, f) in ITEMS {
        let t0 = std::time::Instant::now();
        let mut n = 0;
        while t0.elapsed().as_secs_f64() < each {
            for _ in 0..64 {
                f(&mut Gen::new(seed ^ 0x7257, n)).map_err(|e| format!("{name}: {e}"))?;
                n += 1;
            }
        }
        out.push((*name, n));
    }
    Ok(out)
}
