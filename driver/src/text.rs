//! C09, C10, C11, C20: texts, big integers, fractions.
use crate::core::*;
use crate::{note, with1};
use baa::*;
use num_bigint::{BigInt, BigUint, Sign};

fn digits(v: &BigUint, radix: u32, n: usize) -> String {
    let t = v.to_str_radix(radix);
    let t = if v.bits() == 0 { String::new() } else { t };
    format!("{}{}", "0".repeat(n.saturating_sub(t.len())), t)
}

/// does the text denote v in this radix (any leading zeros, at least `min` digits)?
fn denotes(what: &str, t: &str, radix: u32, v: &BigInt) -> R {
    let (neg, m) = match t.strip_prefix('-') { Some(r) => (true, r), None => (false, t) };
    if !m.bytes().all(|c| (c as char).is_digit(radix) && !c.is_ascii_uppercase()) { return Err(format!("{what}: {t:?} is not a number")); }
    let mag = if m.is_empty() { BigUint::from(0u8) } else { BigUint::parse_bytes(m.as_bytes(), radix).unwrap() };
    if neg != (v.sign() == Sign::Minus) || mag != *v.magnitude() { return Err(format!("{what}: {t:?} does not denote {v}")); }
    if neg && m.is_empty() { return Err(format!("{what}: no digits in {t:?}")); }
    Ok(())
}

pub fn c09(g: &mut Gen, case: u64) -> R {
    let a = if case < 510 { let mut c = case; let mut k = 1; while c >= 1 << k { c -= 1 << k; k += 1; } V::u64(c, k) } else {
        let w = g.width();
        match g.below(4) { 0 => V::of_int(&BigInt::from(g.word() as i64), w), 1 => { let x = vec![g.word(), g.word()]; V::new(w, if w > 128 { x } else { x }) } _ => g.val(w) }
    };
    note!(g, "a = {a:?}");
    let w = a.w;
    let u = a.big();
    let s = a.int();
    let bin = digits(&u, 2, w as usize);
    let hex = digits(&u, 16, (w as usize + 3) / 4);
    let dec = u.to_str_radix(10);
    g.evals += 5;
    let e = BitVecValue::zero(0);
    eqv("to_bit_str, width 0", e.to_bit_str(), String::new()).and_then(|_| eqv("to_hex_str, width 0", e.to_hex_str(), String::new())).and_then(|_| eqv("to_dec_str, width 0", e.to_dec_str(), "0".to_string()))?;
    with1!(g, &a, x, {
        eqv("to_bit_str", x.to_bit_str(), bin)
            .and_then(|_| eqv("to_hex_str", x.to_hex_str(), hex))
            .and_then(|_| if u < p2(128) { eqv("to_dec_str", x.to_dec_str(), dec) } else { Ok(()) })
            .and_then(|_| denotes("to_bit_str_signed", &x.to_bit_str_signed(), 2, &s))
            .and_then(|_| denotes("to_hex_str_signed", &x.to_hex_str_signed(), 16, &s))
    })
}

/// a text for width w: (text, radix, magnitude if the text is well formed with its sign)
pub fn text_of(g: &mut Gen, w: u32) -> (String, u32, Option<(bool, BigUint)>) {
    let radix = if w <= 128 { *g.pick(&[2u32, 10, 16]) } else { *g.pick(&[2u32, 16]) };
    let m = p2(w as u64);
    let v = match g.below(8) {
        0 => &m - 1u8,
        1 => m.clone(),
        2 => &m + g.below(3),
        3 => { let k = g.range(0, w + 8); p2(k as u64) - g.below(2) }
        4 => &m * (g.below(17) + 1) + g.below(9),
        _ => g.val(w).big(),
    };
    let mut t: Vec<char> = v.to_str_radix(radix).chars().collect();
    // leading zeros: none, some, up to a given number of digits, many
    let z = match g.below(8) {
        0 | 1 | 2 => 0,
        3 => g.range(1, 5) as usize,
        4 => { let n = if radix == 16 { (w as usize + 3) / 4 } else { w as usize }; n.saturating_sub(t.len()) + g.below(2) as usize }
        5 => { let n = if radix == 16 { 16 } else { 64 }; (n - t.len() % n) % n }
        6 => g.range(5, 150) as usize,
        _ => g.range(0, 20) as usize,
    };
    for _ in 0..z { t.insert(0, '0'); }
    if g.chance(30) { for c in t.iter_mut() { *c = c.to_ascii_uppercase(); } } else if g.chance(20) { for c in t.iter_mut() { if g.chance(50) { *c = c.to_ascii_uppercase(); } } }
    let mut ok = true;
    if g.chance(25) {
        // destroy it
        ok = false;
        let bad = match radix { 2 => vec!['2', '3', 'a', '/', ' ', '_', '-', '+', 'é', '9'], 10 => vec!['a', 'A', ':', '/', ' ', '_', '-', '+', 'é', '.'], _ => vec!['g', 'G', '`', '@', ':', '/', ' ', '_', '-', '+', 'x', 'é'] };
        let c = match g.below(10) {
            0..=3 => *g.pick(&bad),
            4..=8 => g.below(128) as u8 as char,
            _ => { let k = g.below(0x3000) as u32 + 128; char::from_u32(k).unwrap_or('é') }
        };
        match g.below(4) {
            // a sign in front is legal, so illegal signs go elsewhere
            0 if c != '-' && c != '+' => { let k = g.below(t.len() as u64) as usize; t[k] = c; }
            1 if c != '-' && c != '+' => t.insert(0, c),
            2 => t.push(c),
            3 => t.clear(),
            _ => { let k = g.below(t.len() as u64) as usize + 1; t.insert(k, c); }
        }
    }
    let sign = g.below(5);
    match sign { 0 | 1 => t.insert(0, '-'), 2 => t.insert(0, '+'), _ => {} }
    let s: String = t.into_iter().collect();
    // decide from the text itself
    let (neg, mag) = match s.as_bytes() { [b'-', ..] => (true, &s[1..]), [b'+', ..] => (false, &s[1..]), _ => (false, &s[..]) };
    let well = !mag.is_empty() && mag.chars().all(|c| c.is_digit(radix));
    let _ = ok;
    stir(radix, &s.bytes().map(|b| b as u64).collect::<Vec<_>>());
    let r = if well { Some((neg, BigUint::parse_bytes(mag.as_bytes(), radix).unwrap())) } else { None };
    (s, radix, r)
}

pub fn c10(g: &mut Gen, case: u64) -> R {
    let w = if case < 200 { case as u32 + 1 } else { g.width_in(1, 1200) };
    // 1. with a given width
    let (t, radix, num) = text_of(g, w);
    if !t.is_empty() && !t.starts_with("-+") {
        let old = g.val(w);
        note!(g, "text {t:?} radix {radix} into width {w}; destination held {old:?}");
        let want = match &num { Some((neg, m)) if *m < p2(w as u64) => Some(V::of_int(&BigInt::from_biguint(if *neg { Sign::Minus } else { Sign::Plus }, m.clone()), w)), _ => None };
        let mut buf = Buf::new(g, &old);
        let before = buf.words.clone();
        let r = buf.m().assign_from_str_radix(&t, radix);
        g.evals += 2;
        match (&r, &want) {
            (Ok(()), Some(v)) => same("parsed number", &buf.r(), v)?,
            (Err(_), None) => canon("destination after an error", &buf.r())?,
            (Ok(()), None) => return Err(format!("accepted, result {:?}", view(&buf.r()))),
            (Err(e), Some(v)) => return Err(format!("rejected ({e:?}), expected {v:?}")),
        }
        for k in 0..buf.words.len() { if (k < buf.off || k >= buf.off + nw(w)) && buf.words[k] != before[k] { return Err("word outside of the destination changed".into()); } }
        match (BitVecValue::from_str_radix(&t, radix, w), &want) {
            (Ok(x), Some(v)) => same("from_str_radix", &x, v)?,
            (Err(_), None) => {}
            (Ok(x), None) => return Err(format!("from_str_radix accepted, result {:?}", view(&x))),
            (Err(e), Some(v)) => return Err(format!("from_str_radix rejected ({e:?}), expected {v:?}")),
        }
        // 2. without a width
        if radix != 10 {
            let d = t.trim_start_matches(|c| c == '-' || c == '+').len();
            let (neg, _) = (t.starts_with('-'), 0);
            let signs = t.len() - d;
            if signs <= 1 {
                let iw = d as u32 * if radix == 2 { 1 } else { 4 } + neg as u32;
                let r = if radix == 2 { BitVecValue::from_bit_str(&t) } else { BitVecValue::from_hex_str(&t) };
                g.evals += 1;
                match (&r, &num) {
                    (Ok(x), Some((n, m))) => same("text without width", x, &V::of_int(&BigInt::from_biguint(if *n { Sign::Minus } else { Sign::Plus }, m.clone()), iw))?,
                    (Err(_), None) => {}
                    (Ok(x), None) => return Err(format!("text without width accepted: {:?}", view(x))),
                    (Err(e), Some(_)) => return Err(format!("text without width rejected: {e:?}")),
                }
            }
        }
    }
    // 3. print and parse back
    let a = if g.chance(30) { V::of_int(&BigInt::from(g.word() as i64), w) } else { g.val(w) };
    note!(g, "printed and parsed: {a:?}");
    let x = own(&a);
    g.evals += 3;
    match BitVecValue::from_str_radix(&x.to_bit_str(), 2, w) { Ok(y) => same("binary text parsed back", &y, &a)?, Err(e) => return Err(format!("binary text rejected: {e:?}")) }
    match BitVecValue::from_bit_str(&x.to_bit_str()) { Ok(y) => same("binary text parsed back (no width)", &y, &a)?, Err(e) => return Err(format!("binary text rejected: {e:?}")) }
    match BitVecValue::from_str_radix(&x.to_hex_str(), 16, w) { Ok(y) => same("hex text parsed back", &y, &a)?, Err(e) => return Err(format!("hex text rejected: {e:?}")) }
    if w <= 128 {
        match BitVecValue::from_str_radix(&x.to_dec_str(), 10, w) { Ok(y) => same("decimal text parsed back", &y, &a)?, Err(e) => return Err(format!("decimal text rejected: {e:?}")) }
    }
    Ok(())
}

pub fn big_of(g: &mut Gen, bits: u64) -> BigInt {
    let n = g.below(bits / 64 + 2) as usize;
    let x: Vec<u64> = (0..n).map(|_| g.word()).collect();
    let m = match g.below(6) { 0 => { let k = g.below(bits + 1); p2(k) } 1 => { let k = g.below(bits + 1); p2(k) - 1u8 } 2 => BigUint::from(g.below(5)), _ => big(&x) };
    stir(0, &m.to_u64_digits());
    let s = if m.bits() == 0 { Sign::NoSign } else if g.chance(50) { Sign::Minus } else { Sign::Plus };
    BigInt::from_biguint(s, m)
}

pub fn c11(g: &mut Gen, case: u64) -> R {
    let w = if case < 300 { case as u32 + 1 } else { g.width() };
    let a = g.val(w);
    let v = big_of(g, w as u64 + 130);
    note!(g, "a = {a:?}, integer {v}, width {w}");
    g.evals += 6;
    with1!(g, &a, x, {
        eqv("to_big_uint", x.to_big_uint(), a.big()).and_then(|_| eqv("to_big_int", x.to_big_int(), a.int()))
    })?;
    let e = BitVecValue::zero(0);
    eqv("to_big_uint, width 0", e.to_big_uint(), BigUint::from(0u8)).and_then(|_| eqv("to_big_int, width 0", e.to_big_int(), BigInt::from(0)))?;
    let u = v.magnitude().clone();
    same("from_big_uint", &BitVecValue::from_big_uint(&u, w), &V::of_big(&u, w))?;
    same("from_big_int", &BitVecValue::from_big_int(&v, w), &V::of_int(&v, w))?;
    let iw = u.bits() as u32;
    same("From<&BigUint>", &BitVecValue::from(&u), &V::of_big(&u, iw))?;
    same("From<&BigInt>", &BitVecValue::from(&v), &V::of_int(&v, iw + 1))?;
    eqv("unsigned round trip", BitVecValue::from(&u).to_big_uint(), u)?;
    eqv("signed round trip", BitVecValue::from(&v).to_big_int(), v)
}

fn frac(f: &fraction::Fraction) -> Option<(BigInt, BigUint)> {
    use fraction::GenericFraction::*;
    match f {
        Rational(s, r) => {
            let n = BigInt::from(*r.numer());
            Some((if *s == fraction::Sign::Minus { -n } else { n }, BigUint::from(*r.denom())))
        }
        _ => None,
    }
}

pub fn c20(g: &mut Gen, case: u64) -> R {
    let a = if case < 60 { let mut c = case; let mut k = 1; while c >= 1 << k { c -= 1 << k; k += 1; } V::u64(c, k) } else {
        let w = if g.chance(60) { g.width_in(1, 70) } else { g.width() };
        match g.below(3) { 0 => V::of_int(&BigInt::from(g.word() as i64), w), 1 => V::u64(g.word(), w), _ => g.val(w) }
    };
    let w = a.w;
    let f = match g.below(5) { 0 => 0, 1 => w, 2 => w.min(*g.pick(&[31, 32, 62, 63, 64, 65, 127, 128])), _ => g.range(0, w.min(70)) };
    note!(g, "a = {a:?}, {f} fraction bits");
    let check = |what: &str, r: Option<fraction::Fraction>, v: BigInt, ok: bool| -> R {
        match r {
            None => if ok { Err(format!("{what}: nothing, expected {v} / 2^{f}")) } else { Ok(()) },
            Some(x) => {
                if !ok { return Err(format!("{what}: {x:?}, expected nothing")); }
                let (n, d) = frac(&x).ok_or(format!("{what}: not a number"))?;
                if n * BigInt::from(p2(f as u64)) != v.clone() * BigInt::from(d.clone()) || d == BigUint::from(0u8) { return Err(format!("{what}: {x:?}, expected {v} / 2^{f}")); }
                Ok(())
            }
        }
    };
    let fits = a.big() < p2(64);
    g.evals += 2;
    with1!(g, &a, x, {
        check("unsigned", x.to_unsigned_fixed_point(f), BigInt::from(a.big()), fits && f < 64)
            .and_then(|_| check("signed", x.to_signed_fixed_point(f), a.int(), f < 64 && if a.neg() { w <= 64 } else { fits }))
    })
}
