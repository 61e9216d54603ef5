//! C02-C08, C12, C14, C22: bit-vector operations against bit/number level references.
use crate::core::*;
use crate::{ck, note};
use baa::*;
use num_bigint::{BigInt, BigUint};

/// run `$body` with `$x` bound to (a reference to) an operand holding `$v` in a random representation
#[macro_export]
macro_rules! with1 {
    ($g:expr, $v:expr, $x:ident, $body:expr) => {{
        match $g.below(3) {
            0 => { let o__ = own($v); let $x = &o__; let r__ = $body; if view(&o__) != *$v { Err(format!("operand modified: {:?} became {:?}", $v, view(&o__))) } else { r__ } }
            1 => { let b__ = Buf::new($g, $v); let w__ = b__.words.clone(); let m__ = b__.r(); let $x = &m__; let r__ = $body; if b__.words != w__ { Err("operand modified".to_string()) } else { r__ } }
            _ => { let mut b__ = Buf::new($g, $v); let w__ = b__.words.clone(); let r__ = { let m__ = b__.m(); let $x = &m__; $body }; if b__.words != w__ { Err("operand modified".to_string()) } else { r__ } }
        }
    }};
}

/// the operands of an enumerated case (all pairs of all values of widths 1..=4), or random ones
fn pair(g: &mut Gen, case: u64, random: impl Fn(&mut Gen) -> (V, V)) -> (V, V) {
    let mut c = case;
    for w in 1..=4u32 {
        let n = 1u64 << (2 * w);
        if c < n { return (V::u64(c >> w, w), V::u64(c, w)); }
        c -= n;
    }
    random(g)
}
fn same_width(g: &mut Gen) -> (V, V) { let w = g.width(); let a = g.val(w); let b = g.near(&a); (a, b) }

pub fn c02(g: &mut Gen, case: u64) -> R {
    let (a, b) = pair(g, case, same_width);
    note!(g, "a = {a:?}\nb = {b:?}");
    let w = a.w;
    let m = p2(w as u64);
    let sum = V::of_big(&(a.big() + b.big()), w);
    let dif = V::of_big(&(a.big() + &m - b.big()), w);
    let neg = V::of_big(&(&m - a.big()), w);
    with1!(g, &a, x, with1!(g, &b, y, c02x(g, x, y, &a, &b, &sum, &dif, &neg)))?;
    let (x, y) = (own(&a), own(&b));
    ck!(g, true, "");
    same("a + b", &(&x + &y), &sum)?;
    same("a - b", &(&x - &y), &dif)?;
    let r = BitVecValueRef::from(&y);
    same("a + ref b", &(&x + &r), &sum)?;
    same("a - ref b", &(&x - &r), &dif)
}
fn c02x<A: BitVecOps, B: BitVecOps>(g: &mut Gen, x: &A, y: &B, a: &V, b: &V, sum: &V, dif: &V, neg: &V) -> R {
    g.evals += 3;
    same("add", &x.add(y), sum)?;
    same("sub", &x.sub(y), dif)?;
    same("negate", &x.negate(), neg)?;
    if a.w <= 64 {
        g.evals += 1;
        same("mul", &x.mul(y), &V::of_big(&(a.big() * b.big()), a.w))?;
    }
    Ok(())
}

pub fn c03(g: &mut Gen, case: u64) -> R {
    let (a, b) = pair(g, case, same_width);
    note!(g, "a = {a:?}\nb = {b:?}");
    let f = |f: &dyn Fn(bool, bool) -> bool| V::from_bits(&(0..a.w).map(|i| f(a.bit(i), b.bit(i))).collect::<Vec<_>>());
    let (and, or, xor, not) = (f(&|x, y| x && y), f(&|x, y| x || y), f(&|x, y| x != y), f(&|x, _| !x));
    g.evals += 4;
    with1!(g, &a, x, with1!(g, &b, y, {
        same("and", &x.and(y), &and).and_then(|_| same("or", &x.or(y), &or)).and_then(|_| same("xor", &x.xor(y), &xor)).and_then(|_| same("not", &x.not(), &not))
    }))
}

pub fn c04(g: &mut Gen, case: u64) -> R {
    let (a, b) = pair(g, case, |g| { let w = g.width(); let a = g.val(w); let b = g.amount(w); (a, b) });
    note!(g, "value = {a:?}\namount = {b:?}");
    let w = a.w;
    let over = b.big() >= BigUint::from(w);
    let n = if over { w } else { b.x[0] as u32 };
    let fill = a.neg();
    let bits = a.bits();
    let at = |i: i64, hi: bool| -> bool { if i < 0 { false } else if i >= w as i64 { hi } else { bits[i as usize] } };
    let shl = V::from_bits(&(0..w as i64).map(|i| at(i - n as i64, false)).collect::<Vec<_>>());
    let shr = V::from_bits(&(0..w as i64).map(|i| at(i + n as i64, false)).collect::<Vec<_>>());
    let sar = V::from_bits(&(0..w as i64).map(|i| at(i + n as i64, fill)).collect::<Vec<_>>());
    g.evals += 3;
    with1!(g, &a, x, with1!(g, &b, y, {
        same("shift_left", &x.shift_left(y), &shl)
            .and_then(|_| same("shift_right", &x.shift_right(y), &shr))
            .and_then(|_| same("arithmetic_shift_right", &x.arithmetic_shift_right(y), &sar))
    }))
}

pub fn c05(g: &mut Gen, case: u64) -> R {
    let (a, b) = pair(g, case, |g| { let w = g.width(); let a = g.val(w); let v = g.width(); let b = g.val(v); (a, b) });
    let by = match g.below(5) { 0 => 0, 1 => g.range(1, 70), 2 => 64 * g.range(1, 3), 3 => (64 - a.w % 64) % 64, _ => g.width() };
    let i = g.below(a.w as u64) as u32;
    let j = match g.below(4) { 0 => i, 1 => i / 64 * 64, 2 => 0, _ => g.below(i as u64 + 1) as u32 };
    let i = match g.below(3) { 0 => a.w - 1, _ => i };
    note!(g, "a = {a:?}\nb = {b:?}\nextend by {by}, slice [{i}:{j}]");
    let (ab, bb) = (a.bits(), b.bits());
    let cat = { let mut t = bb.clone(); t.extend(&ab); V::from_bits(&t) };
    let ze = { let mut t = ab.clone(); t.resize((a.w + by) as usize, false); V::from_bits(&t) };
    let se = { let mut t = ab.clone(); t.resize((a.w + by) as usize, a.neg()); V::from_bits(&t) };
    let sl = V::from_bits(&ab[j as usize..=i as usize]);
    g.evals += 4;
    with1!(g, &a, x, {
        let r = with1!(g, &b, y, same("concat", &x.concat(y), &cat));
        r.and_then(|_| same("zero_extend", &x.zero_extend(by), &ze))
            .and_then(|_| same("sign_extend", &x.sign_extend(by), &se))
            .and_then(|_| same("slice", &x.slice(i, j), &sl))
            .and_then(|_| {
                for k in 0..a.w { if x.is_bit_set(k) != ab[k as usize] { return Err(format!("is_bit_set({k}) = {}", !ab[k as usize])); } }
                Ok(())
            })
    })?;
    if a.w <= 8 {
        for i in 0..a.w { for j in 0..=i {
            g.evals += 1;
            same(&format!("slice({i},{j})"), &own(&a).slice(i, j), &V::from_bits(&ab[j as usize..=i as usize]))?;
        } }
    }
    // set and clear
    let mut buf = Buf::new(g, &a);
    let before = buf.words.clone();
    for _ in 0..3 {
        let k = match g.below(4) { 0 => a.w - 1, 1 => (a.w - 1) / 64 * 64, _ => g.below(a.w as u64) as u32 };
        let set = g.chance(50);
        note!(g, "{} bit {k} of {:?}", if set { "set" } else { "clear" }, view(&buf.r()));
        let mut want = view(&buf.r()).bits();
        let mut o = own(&view(&buf.r()));
        want[k as usize] = set;
        let want = V::from_bits(&want);
        if set { buf.m().set_bit(k); o.set_bit(k); } else { buf.m().clear_bit(k); o.clear_bit(k); }
        g.evals += 2;
        same("set/clear bit in a buffer", &buf.r(), &want)?;
        same("set/clear bit", &o, &want)?;
    }
    outside(&buf, &before)
}

/// no word outside the value changed
fn outside(b: &Buf, before: &[u64]) -> R {
    let n = nw(b.w);
    for (k, (x, y)) in b.words.iter().zip(before).enumerate() {
        if (k < b.off || k >= b.off + n) && x != y { return Err(format!("word {k} outside of the destination changed")); }
    }
    Ok(())
}

pub fn c06(g: &mut Gen, case: u64) -> R {
    let (a, b) = pair(g, case, same_width);
    note!(g, "a = {a:?}\nb = {b:?}");
    let (ua, ub, sa, sb) = (a.big(), b.big(), a.int(), b.int());
    g.evals += 10;
    with1!(g, &a, x, with1!(g, &b, y, {
        eqv("is_equal", x.is_equal(y), ua == ub)
            .and_then(|_| eqv("is_not_equal", x.is_not_equal(y), ua != ub))
            .and_then(|_| eqv("is_greater", x.is_greater(y), ua > ub))
            .and_then(|_| eqv("is_greater_or_equal", x.is_greater_or_equal(y), ua >= ub))
            .and_then(|_| eqv("is_less", x.is_less(y), ua < ub))
            .and_then(|_| eqv("is_less_or_equal", x.is_less_or_equal(y), ua <= ub))
            .and_then(|_| eqv("is_greater_signed", x.is_greater_signed(y), sa > sb))
            .and_then(|_| eqv("is_greater_or_equal_signed", x.is_greater_or_equal_signed(y), sa >= sb))
            .and_then(|_| eqv("is_less_signed", x.is_less_signed(y), sa < sb))
            .and_then(|_| eqv("is_less_or_equal_signed", x.is_less_or_equal_signed(y), sa <= sb))
    }))
}

pub fn u_of(g: &mut Gen, w: u32) -> u64 { g.val(w).x[0] }
/// a signed number representable in w and in 64 bits
pub fn i_of(g: &mut Gen, w: u32) -> i64 {
    let k = w.min(64);
    let x = g.val(k).x[0];
    (((x << (64 - k)) as i64) >> (64 - k)) as i64
}

pub fn c07(g: &mut Gen, case: u64) -> R {
    let (w, a);
    if case < 510 * 2 {
        // every value of the widths 1..8, alone and sign extended into a wide vector
        let mut c = case / 2;
        let mut k = 1;
        while c >= 1 << k { c -= 1 << k; k += 1; }
        if case % 2 == 0 { w = k; a = V::u64(c, k); } else { w = g.width_in(k, 400); a = V::of_int(&V::u64(c, k).int(), w); }
    } else {
        w = g.width();
        a = match g.below(4) {
            0 => V::of_int(&BigInt::from(g.word() as i64), w),
            1 => V::u64(g.word(), w),
            2 => { // just outside the 64-bit ranges
                let v = BigInt::from(g.word() as i64) + (BigInt::from(g.below(3) as i64) - 1) * (BigInt::from(1) << *g.pick(&[63u32, 64, 65])); V::of_int(&v, w) }
            _ => g.val(w),
        };
    }
    // the empty bit-vector reads back as zero
    let e = BitVecValue::zero(0);
    g.evals += 6;
    eqv("to_u64, width 0", e.to_u64(), Some(0)).and_then(|_| eqv("to_i64, width 0", e.to_i64(), Some(0))).and_then(|_| eqv("to_bool, width 0", e.to_bool(), None))
        .and_then(|_| eqv("is_zero, width 0", e.is_zero(), true)).and_then(|_| eqv("is_tru, width 0", e.is_tru(), false)).and_then(|_| eqv("is_fals, width 0", e.is_fals(), false))?;
    let u = u_of(g, w);
    let i = i_of(g, w);
    note!(g, "a = {a:?}, width {w}, u = {u}, i = {i}");
    g.evals += 14;
    same("from_u64", &BitVecValue::from_u64(u, w), &V::u64(u, w))?;
    same("from_i64", &BitVecValue::from_i64(i, w), &V::of_int(&BigInt::from(i), w))?;
    same("zero", &BitVecValue::zero(w), &V::new(w, vec![]))?;
    same("ones", &BitVecValue::ones(w), &V::new(w, vec![u64::MAX; nw(w)]))?;
    same("tru", &BitVecValue::tru(), &V::u64(1, 1))?;
    same("fals", &BitVecValue::fals(), &V::u64(0, 1))?;
    for b in [false, true] {
        same("from_bool", &BitVecValue::from_bool(b), &V::u64(b as u64, 1))?;
        same("From<bool>", &BitVecValue::from(b), &V::u64(b as u64, 1))?;
    }
    let mut d = own(&a);
    d.assign_from_u64(u);
    same("assign_from_u64", &d, &V::u64(u, w))?;
    let mut d = own(&a);
    d.assign_from_i64(i);
    same("assign_from_i64", &d, &V::of_int(&BigInt::from(i), w))?;
    let eu = u64::try_from(a.big()).ok();
    let ei = i64::try_from(a.int()).ok();
    with1!(g, &a, x, {
        eqv("to_u64", x.to_u64(), eu)
            .and_then(|_| eqv("to_i64", x.to_i64(), ei))
            .and_then(|_| eqv("to_bool", x.to_bool(), if w == 1 { Some(a.x[0] == 1) } else { None }))
            .and_then(|_| eqv("is_zero", x.is_zero(), a.zero()))
            .and_then(|_| eqv("is_negative", x.is_negative(), a.neg()))
            .and_then(|_| eqv("is_tru", x.is_tru(), w == 1 && a.x[0] == 1))
            .and_then(|_| eqv("is_fals", x.is_fals(), w == 1 && a.x[0] == 0))
    })
}

pub fn c08(g: &mut Gen, case: u64) -> R {
    let w = if case < 300 { case as u32 + 1 } else { g.width() };
    let a = g.val(w);
    let e = BitVecValue::from_bytes_le(&[], 0);
    same("from_bytes_le, width 0", &e, &V::new(0, vec![]))?;
    eqv("to_bytes_le, width 0", e.to_bytes_le(), vec![])?;
    let n = g.below(nw(w) as u64 * 8 + 1) as usize;
    let n = match g.below(5) { 0 => nw(w) * 8, 1 => (w as usize + 7) / 8, _ => n };
    let bytes: Vec<u8> = (0..n).map(|_| match g.below(4) { 0 => 0, 1 => 0xff, 2 => 0x80, _ => g.next() as u8 }).collect();
    stir(n as u32, &bytes.iter().map(|b| *b as u64).collect::<Vec<_>>());
    note!(g, "a = {a:?}\nbytes = {bytes:?}");
    let mut want = vec![0u8; (w as usize + 7) / 8];
    for i in 0..w { if a.bit(i) { want[(i / 8) as usize] |= 1 << (i % 8); } }
    g.evals += 3;
    with1!(g, &a, x, eqv("to_bytes_le", x.to_bytes_le(), want.clone()))?;
    same("from_bytes_le", &BitVecValue::from_bytes_le(&bytes, w), &V::of_big(&BigUint::from_bytes_le(&bytes), w))?;
    same("from_bytes_le(to_bytes_le)", &BitVecValue::from_bytes_le(&own(&a).to_bytes_le(), w), &a)
}

fn h(x: &BitVecValue) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

pub fn c12(g: &mut Gen, case: u64) -> R {
    let (a, mut b) = pair(g, case, same_width);
    if g.chance(40) {
        // same words or same value in another width
        let w = match g.below(3) { 0 => g.range(1.max(a.w.saturating_sub(5)), a.w + 5), 1 => (nw(a.w) * 64) as u32, _ => g.width() };
        b = V::new(w, a.x.clone());
    }
    note!(g, "a = {a:?}\nb = {b:?}");
    let eq = a.w == b.w && a.x == b.x;
    let e = BitVecValue::zero(0);
    eqv("width 0 equals itself", e == e.clone() && e == BitVecValueRef::from(&e), true)?;
    eqv("width 0 equals another width", e == own(&a) || own(&a) == e || e == BitVecValue::zero(1), false)?;
    let (x, y) = (own(&a), own(&b));
    let (ba, bb) = (Buf::new(g, &a), Buf::new(g, &b));
    let mut bm = Buf::new(g, &b);
    let (rx, ry) = (ba.r(), bb.r());
    g.evals += 12;
    eqv("owned == owned", x == y, eq)?;
    eqv("owned == ref", x == ry, eq)?;
    eqv("ref == owned", rx == y, eq)?;
    eqv("ref == ref", rx == ry, eq)?;
    eqv("ref(owned) == ref", BitVecValueRef::from(&x) == ry, eq)?;
    { let m = bm.m(); eqv("owned == mut", x == m, eq)?; eqv("ref == mut", rx == m, eq)?; }
    { let mut t = y.clone(); let m = BitVecValueMutRef::from(&mut t); eqv("owned == mut(owned)", x == m, eq)?; eqv("ref == mut(owned)", rx == m, eq)?;
      if m.width() != b.w || m.words() != &b.x[..] { return Err("BitVecValueMutRef::from(&mut owned) differs".into()); } }
    eqv("owned != owned", x != y, !eq)?;
    same("clone", &x.clone(), &a)?;
    same("From<ref> for owned", &BitVecValue::from(rx), &a)?;
    same("From<&owned> for ref", &BitVecValueRef::from(&x), &a)?;
    let (c, d) = (rx.clone(), rx);
    same("ref copy", &c, &a)?;
    same("ref copy", &d, &a)?;
    if eq {
        eqv("hash of equal values", h(&x), h(&y))?;
        // same value through another history
        let mut z = BitVecValue::ones(a.w);
        z.assign(BitVecValueRef::from(&x));
        eqv("hash of equal values", h(&x), h(&z))?;
        eqv("hash of a copy", h(&x), h(&BitVecValue::from(rx)))?;
        eqv("assigned copy is equal", x == z, true)?;
    }
    Ok(())
}

pub fn c14(g: &mut Gen, _case: u64) -> R {
    let n = g.range(8, 40) as usize;
    let store: Vec<u64> = (0..n).map(|i| (i as u64) << 32 | (g.next() & 0xffff_ffff)).collect();
    let pick = |g: &mut Gen| { let w = g.width_in(1, 64 * (n as u32).min(9)); let k = nw(w); let off = g.below((n - k) as u64 + 1) as usize; (off, w) };
    // destination and sources that do not overlap it
    let mut tries = 0;
    let (d, a, b) = loop {
        let (d, a, b) = (pick(g), pick(g), pick(g));
        let dis = |p: (usize, u32), q: (usize, u32)| p.0 + nw(p.1) <= q.0 || q.0 + nw(q.1) <= p.0;
        let adj = match g.below(4) { 0 => Some((d.0 + nw(d.1), a.1)), _ => None }; // directly behind the destination
        let a = adj.filter(|p| p.0 + nw(p.1) <= n).unwrap_or(a);
        if dis(d, a) && dis(d, b) { break (d, a, b); }
        tries += 1;
        if tries > 200 { break ((2, 64), (0, 100), (3, 70)); }
    };
    stir(n as u32, &[d.0 as u64, d.1 as u64, a.0 as u64, a.1 as u64, b.0 as u64, b.1 as u64]);
    note!(g, "store of {n} words, (offset, width): dst {d:?}, src {a:?}, {b:?}");
    let ix = |p: (usize, u32)| BitVecValueIndex::new(p.0 as u32, p.1);
    let (id, ia, ib) = (ix(d), ix(a), ix(b));
    let is = |what: &str, w: u32, x: &[u64], p: (usize, u32), base: *const u64| -> R {
        if w != p.1 || x.len() != nw(p.1) { return Err(format!("{what}: width {w}, {} words", x.len())); }
        if x.as_ptr() != unsafe { base.add(p.0) } { return Err(format!("{what}: refers to the wrong words")); }
        Ok(())
    };
    g.evals += 8;
    eqv("index words", id.words(), nw(d.1))?;
    eqv("index width", id.width(), d.1)?;
    eqv("index range", id.to_range(), d.0..d.0 + nw(d.1))?;
    let base = store.as_ptr();
    let r: BitVecValueRef = store[..].get_ref(&ia);
    is("get_ref", r.width(), r.words(), a, base)?;
    let (r, s): (BitVecValueRef, BitVecValueRef) = store[..].get_ref((ia, ib));
    is("get_ref pair, first", r.width(), r.words(), a, base)?;
    is("get_ref pair, second", s.width(), s.words(), b, base)?;
    let val = g.val(d.1);
    let mode = g.below(4);
    let mut m = store.clone();
    let base = m.as_ptr();
    {
        let check_src = |what: &str, r: &BitVecValueRef, p: (usize, u32)| -> R {
            if r.words() != &store[p.0..p.0 + nw(p.1)] { return Err(format!("{what}: wrong contents")); }
            Ok(())
        };
        match mode {
            0 => {
                let mut r: BitVecValueMutRef = m[..].get_mut_ref(id);
                is("get_mut_ref", r.width(), r.words(), d, base)?;
                r.words_mut().copy_from_slice(&val.x);
            }
            1 => {
                let (mut r, s): (BitVecValueMutRef, BitVecValueRef) = m[..].get_mut_ref((&id, &ia));
                is("get_mut_ref pair, dst", r.width(), r.words(), d, base)?;
                is("get_mut_ref pair, src", s.width(), s.words(), a, base)?;
                r.words_mut().copy_from_slice(&val.x);
                check_src("get_mut_ref pair, src", &s, a)?;
            }
            _ => {
                let (mut r, s, t): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) = m[..].get_mut_ref((id, ia, ib));
                is("get_mut_ref triple, dst", r.width(), r.words(), d, base)?;
                is("get_mut_ref triple, first src", s.width(), s.words(), a, base)?;
                is("get_mut_ref triple, second src", t.width(), t.words(), b, base)?;
                r.words_mut().copy_from_slice(&val.x);
                check_src("get_mut_ref triple, first src", &s, a)?;
                check_src("get_mut_ref triple, second src", &t, b)?;
            }
        }
    }
    let mut want = store.clone();
    want[d.0..d.0 + nw(d.1)].copy_from_slice(&val.x);
    eqv("store after a write", m, want)
}

pub fn c22(g: &mut Gen, case: u64) -> R {
    let (old, new) = pair(g, case, same_width);
    note!(g, "destination held {old:?}, source {new:?}");
    let w = old.w;
    let mut buf = Buf::new(g, &old);
    let before = buf.words.clone();
    let src = own(&new);
    let srcb = Buf::new(g, &new);
    let srcw = srcb.words.clone();
    let mut o = own(&old);
    let (u, i) = (u_of(g, w), i_of(g, w));
    let k = g.below(6);
    note!(g, "operation {k}, u = {u}, i = {i}");
    let want = match k {
        0 => { buf.m().assign(&src); o.assign(srcb.r()); new.clone() }
        1 => { buf.m().assign(srcb.r()); o.assign(&src); new.clone() }
        2 => { buf.m().assign_from_u64(u); o.assign_from_u64(u); V::u64(u, w) }
        3 => { buf.m().assign_from_i64(i); o.assign_from_i64(i); V::of_int(&BigInt::from(i), w) }
        4 => { buf.m().assign_ones(); o.assign_ones(); V::new(w, vec![u64::MAX; nw(w)]) }
        _ => { buf.m().clear(); o.clear(); V::new(w, vec![]) }
    };
    g.evals += 2;
    same("in-place update of a buffer", &buf.r(), &want)?;
    same("in-place update", &o, &want)?;
    { let m = buf.m(); eqv("width of the reference", m.width(), w)?; }
    same("source", &src, &new)?;
    eqv("source buffer", &srcb.words, &srcw)?;
    let rem = g.noise(nw(w));
    { // raw words with noise above the width, then mask
        let mut b2 = Buf { w, off: buf.off, words: buf.words.clone() };
        b2.m().words_mut().copy_from_slice(&rem);
        b2.m().mask_msb();
        same("mask_msb", &b2.r(), &V::new(w, rem.clone()))?;
        outside(&b2, &before)?;
    }
    outside(&buf, &before)
}

/// C01: random histories over a pool of values; every value seen is canonical
pub fn c01(g: &mut Gen, _case: u64) -> R {
    let mut pool: Vec<BitVecValue> = vec![];
    for _ in 0..3 { let w = g.width_in(1, 700); let v = g.val(w); pool.push(own(&v)); }
    for step in 0..10 {
        let i = g.below(pool.len() as u64) as usize;
        let a = pool[i].clone();
        let w = a.width();
        if w == 0 { pool[i] = BitVecValue::zero(5); continue; }
        let av = view(&a);
        // a partner of the same width
        let b = pool.iter().rev().find(|b| b.width() == w && g.chance(60)).cloned().unwrap_or_else(|| { let v = g.near(&av); own(&v) });
        let amt = own(&g.amount(w));
        let op = g.below(34);
        note!(g, "step {step}: op {op} on {:?} with {:?} / amount {:?}", av, view(&b), view(&amt));
        g.evals += 1;
        let r: BitVecValue = match op {
            0 => a.add(&b),
            1 => a.sub(&b),
            2 => a.negate(),
            3 => if w <= 64 { a.mul(&b) } else { a.not() },
            4 => a.and(&b),
            5 => a.or(&b),
            6 => a.xor(&b),
            7 => a.not(),
            8 | 9 => a.shift_left(&amt),
            10 | 11 => a.shift_right(&amt),
            12 | 13 => a.arithmetic_shift_right(&amt),
            14 => { let o = g.pick(&pool).clone(); if o.width() > 0 && o.width() + w < 1500 { a.concat(&o) } else { a } }
            15 | 16 => { let m = g.below(w as u64) as u32; let l = g.below(m as u64 + 1) as u32; note!(g, "slice {m} {l}"); a.slice(m, l) }
            17 => { let by = g.range(0, 130); note!(g, "by {by}"); a.sign_extend(by) }
            18 => { let by = g.range(0, 130); note!(g, "by {by}"); a.zero_extend(by) }
            19 => { let u = u_of(g, w); note!(g, "u {u}"); let mut d = a; d.assign_from_u64(u); d }
            20 => { let u = i_of(g, w); note!(g, "i {u}"); let mut d = a; d.assign_from_i64(u); d }
            21 => { let mut d = a; d.assign_ones(); d }
            22 => { let mut d = a; let k = g.below(w as u64) as u32; d.set_bit(k); d.clear_bit(w - 1); d.set_bit(w - 1); d }
            23 => { let n = g.below(nw(w) as u64 * 8 + 1) as usize; let bytes: Vec<u8> = (0..n).map(|_| g.next() as u8 | 0x81).collect(); note!(g, "bytes {bytes:?}"); BitVecValue::from_bytes_le(&bytes, w) }
            24 => { let v = crate::text::big_of(g, w as u64 + 70); note!(g, "big {v}"); BitVecValue::from_big_uint(&v.magnitude(), w) }
            25 => { let v = crate::text::big_of(g, w as u64 + 70); note!(g, "big {v}"); BitVecValue::from_big_int(&v, w) }
            26 | 27 | 28 => {
                let (t, radix, _) = crate::text::text_of(g, w);
                note!(g, "text {t:?} radix {radix}");
                let mut d = a;
                let _ = d.assign_from_str_radix(&t, radix);
                canon("value after parsing", &d)?;
                d
            }
            29 => { let mut buf = Buf::new(g, &av); { let mut m = buf.m(); m.assign(&b); m.assign_ones(); canon("mutable reference", &m)?; } BitVecValue::from(buf.r()) }
            30 => { // elements of arrays
                let iw = g.range(0, 4);
                let ix = BitVecValue::from_u64(if iw == 0 { 0 } else { g.below(1 << iw) }, iw);
                let mut arr = if g.chance(50) { ArrayValue::new_dense(iw, &a) } else { ArrayValue::new_sparse(iw, &a) };
                arr.store(&ix, &b);
                let other = BitVecValue::from_u64(0, iw);
                canon("array element", &arr.select(&other))?;
                let s = SparseArrayValue::from(arr.clone());
                for (k, v) in s.non_default_entries() { canon("entry index", &k)?; canon("entry value", &v)?; }
                canon("default", &s.default())?;
                arr.select(&ix)
            }
            31 => { let mut n = ValueInterner::new(); let x = n.get_index(&a); let y = n.get_index(&b); note!(g, "{x:?} {y:?}");
                let r: BitVecValueRef = n.words().get_ref(x); canon("interned value", &r)?;
                let r: BitVecValueRef = n.words().get_ref(y); r.into() }
            32 => { let t = match g.below(2) { 0 => a.to_bit_str(), _ => format!("-{}", a.to_bit_str()) }; note!(g, "bit text {t}"); match BitVecValue::from_bit_str(&t) { Ok(v) => v, Err(_) => BitVecValue::ones(w) } }
            _ => { let t = match g.below(2) { 0 => a.to_hex_str(), _ => format!("-{}", a.to_hex_str()) }; note!(g, "hex text {t}"); match BitVecValue::from_hex_str(&t) { Ok(v) => v, Err(_) => BitVecValue::zero(w) } }
        };
        canon("result", &r)?;
        if r.width() > 1600 || r.width() == 0 { pool[i] = BitVecValue::ones(w); } else if pool.len() < 6 { pool.push(r); } else { pool[i] = r; }
    }
    Ok(())
}
