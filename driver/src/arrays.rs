//! C13, C15-C19, C23: interner and arrays against plain models.
use crate::core::*;
use crate::note;
use baa::*;
use std::collections::{BTreeMap, HashMap};

pub fn known(s: &str) -> String { format!("KNOWN {s}") }

/// far more values than any small counter can hold
fn c13_giant(g: &mut Gen, wide: bool) -> R {
    note!(g, "140000 distinct values of {} bits", if wide { 100 } else { 40 });
    let w = if wide { 100 } else { 40 };
    let n = 140_000u64;
    let f = |i: u64| V::new(w, if wide { vec![i.wrapping_mul(0x9e3779b97f4a7c15), i] } else { vec![i * 7 + 5] });
    let mut it = ValueInterner::new();
    let mut ix = Vec::with_capacity(n as usize);
    let mut used: HashMap<BitVecValueIndex, u64> = HashMap::new();
    for i in 0..n {
        let x = it.get_index(&own(&f(i)));
        if let Some(p) = used.insert(x, i) { return Err(format!("values {p} and {i} share index {x:?}")); }
        ix.push(x);
    }
    for i in 0..n {
        g.evals += 1;
        let r: BitVecValueRef = it.words().get_ref(ix[i as usize]);
        same(&format!("value {i}"), &r, &f(i))?;
        if i % 16 == 3 { eqv("index of a value interned before", it.get_index(&own(&f(i))), ix[i as usize])?; }
    }
    Ok(())
}

pub fn c13(g: &mut Gen, case: u64) -> R {
    if case == 5 || case == 37 { return c13_giant(g, case == 5); }
    let mut it = ValueInterner::new();
    let mut seen: HashMap<V, BitVecValueIndex> = HashMap::new();
    let mut by_ix: HashMap<BitVecValueIndex, V> = HashMap::new();
    let mut vals: Vec<V> = vec![];
    let mut finding = None;
    let n = if case % 16 == 0 { 80 } else { 20 };
    for _ in 0..n {
        let v = match g.below(10) {
            0 | 1 => { let w = g.width_in(1, 64); V::u64(g.below(12), w) }
            2 => { let w = g.width_in(1, 400); V::u64(g.below(12), w) }
            3 | 4 if !vals.is_empty() => g.pick(&vals).clone(),
            5 if !vals.is_empty() => { // same words, other width with the same number of words
                let v = g.pick(&vals).clone();
                let k = nw(v.w) as u32;
                let mut min = (k - 1) * 64 + 1;
                let t = v.x[v.x.len() - 1];
                min = min.max((k - 1) * 64 + (64 - t.leading_zeros()).max(1));
                let w = g.range(min, k * 64);
                V::new(w, v.x)
            }
            6 if !vals.is_empty() => { let v = g.pick(&vals).clone(); g.near(&v) }
            7 if !vals.is_empty() => { // a piece or an extension of another value
                let v = g.pick(&vals).clone();
                let mut x = v.x.clone();
                if g.chance(50) { x.push(g.below(3)); } else if x.len() > 1 { if g.chance(50) { x.pop(); } else { x.remove(0); } }
                V::new(x.len() as u32 * 64, x)
            }
            _ => { let w = g.width_in(1, 400); g.val(w) }
        };
        note!(g, "intern {v:?}");
        let o = own(&v);
        if g.below(24) == 0 { note!(g, "the store is replaced by a copy"); let mut c = it.clone(); std::mem::swap(&mut it, &mut c); if g.chance(50) { c.get_index(&o); } }
        let ix = if g.chance(50) { it.get_index(&o) } else { it.get_index(BitVecValueRef::from(&o)) };
        g.evals += 1;
        if let Some(p) = seen.get(&v) { if *p != ix { return Err(format!("the index of {v:?} changed from {p:?} to {ix:?}")); } }
        if let Some(p) = by_ix.get(&ix) { if *p != v { return Err(format!("{p:?} and {v:?} share index {ix:?}")); } }
        let (z, o1) = (ValueInterner::is_zero(ix), ValueInterner::is_one(&ix));
        let (ez, eo) = (v.zero(), v.big() == 1u8.into());
        if v.w > 64 && (ez || eo) && !z && !o1 {
            finding = Some(known(&format!("ValueInterner::is_zero/is_one answer false for the interned {}-bit {}", v.w, if ez { "zero" } else { "one" })));
        } else if (z, o1) != (ez, eo) {
            return Err(format!("is_zero {z}, is_one {o1} for {v:?} at {ix:?}"));
        }
        seen.insert(v.clone(), ix);
        by_ix.insert(ix, v.clone());
        vals.push(v);
        // everything interned so far still reads back
        let all = g.chance(30);
        for (v, ix) in seen.iter() {
            if !all && v != vals.last().unwrap() { continue; }
            let x = it.words();
            let rg = ix.to_range();
            if rg.end > x.len() { return Err(format!("{ix:?} is outside of the store")); }
            let r: BitVecValueRef = x.get_ref(ix);
            same(&format!("value at {ix:?}"), &r, v)?;
        }
    }
    match finding { Some(f) => Err(f), None => Ok(()) }
}

/// model of an array: default plus exceptions
#[derive(Clone)]
pub struct M { pub iw: u32, pub dw: u32, pub def: V, pub m: BTreeMap<V, V> }
impl M {
    fn get(&self, i: &V) -> V { self.m.get(i).unwrap_or(&self.def).clone() }
    fn put(&mut self, i: &V, d: &V) { self.m.insert(i.clone(), d.clone()); }
    fn clear(&mut self) { self.m.clear(); self.def = V::new(self.dw, vec![]); }
}

fn data_width(g: &mut Gen) -> u32 {
    match g.below(10) { 0 | 1 => 1, 2 | 3 => g.range(2, 8), 4 => 8, 5 => *g.pick(&[9, 16, 32, 63]), 6 => 64, 7 => *g.pick(&[65, 127, 128, 129]), 8 => g.range(9, 64), _ => g.width_in(65, 300) }
}
fn index(g: &mut Gen, m: &M) -> V {
    if m.iw == 0 { return V::new(0, vec![]); }
    if !m.m.is_empty() && g.chance(50) {
        let k = g.below(m.m.len() as u64) as usize;
        let v = m.m.keys().nth(k).unwrap().clone();
        return if g.chance(70) { v } else { g.near(&v) };
    }
    g.val(m.iw)
}
fn datum(g: &mut Gen, m: &M) -> V {
    match g.below(5) { 0 => m.def.clone(), 1 if !m.m.is_empty() => { let k = g.below(m.m.len() as u64) as usize; m.m.values().nth(k).unwrap().clone() } 2 => { let d = m.def.clone(); g.near(&d) } _ => g.val(m.dw) }
}

/// one public interface for both kinds of arrays
#[derive(Clone)]
enum A { Any(ArrayValue), S(SparseArrayValue) }
impl A {
    fn iw(&self) -> u32 { match self { A::Any(a) => a.index_width(), A::S(a) => a.index_width() } }
    fn dw(&self) -> u32 { match self { A::Any(a) => a.data_width(), A::S(a) => a.data_width() } }
    fn ne(&self) -> usize { match self { A::Any(a) => a.num_elements(), A::S(a) => a.num_elements() } }
    fn we(&self) -> usize { match self { A::Any(a) => a.words_per_element(), A::S(a) => a.words_per_element() } }
    fn sel(&self, i: &BitVecValue) -> BitVecValue { match self { A::Any(a) => a.select(i), A::S(a) => a.select(i) } }
    fn put(&mut self, i: &BitVecValue, d: &BitVecValue) { match self { A::Any(a) => a.store(i, d), A::S(a) => a.store(i, d) } }
    fn clear(&mut self) { match self { A::Any(a) => a.clear(), A::S(a) => a.clear() } }
    fn sparse(&self) -> Option<SparseArrayValue> { match self { A::Any(a) => if a.is_sparse() { Some(a.clone().into()) } else { None }, A::S(a) => Some(a.clone()) } }
}

fn shape(a: &A, m: &M) -> R {
    eqv("index width", a.iw(), m.iw)?;
    eqv("data width", a.dw(), m.dw)?;
    if m.iw < 64 { eqv("number of elements", a.ne(), 1usize << m.iw)?; }
    eqv("words per element", a.we(), nw(m.dw))
}
/// every index (small arrays) or the indices of interest
fn probes(g: &mut Gen, m: &M) -> Vec<V> {
    if m.iw <= 6 || (m.iw <= 10 && g.chance(20)) { return (0..1u64 << m.iw).map(|i| V::u64(i, m.iw)).collect(); }
    let mut p: Vec<V> = m.m.keys().cloned().collect();
    for _ in 0..6 { p.push(index(g, m)); }
    p
}
fn reads(g: &mut Gen, a: &A, m: &M) -> R {
    for i in probes(g, m) {
        g.evals += 1;
        let x = if g.chance(50) { a.sel(&own(&i)) } else { let b = Buf::new(g, &i); match a { A::Any(a) => a.select(b.r()), A::S(a) => a.select(b.r()) } };
        same(&format!("element {i:?}"), &x, &m.get(&i))?;
    }
    Ok(())
}
fn entries(s: &SparseArrayValue, m: &M) -> R {
    let def = view(&s.default());
    eqv("width of the default", def.w, m.dw)?;
    let mut got: BTreeMap<V, V> = BTreeMap::new();
    for (i, d) in s.non_default_entries() {
        canon("entry index", &i)?;
        canon("entry value", &d)?;
        let (i, d) = (view(&i), view(&d));
        if i.w != m.iw || d.w != m.dw { return Err(format!("entry ({i:?}, {d:?}) has the wrong widths")); }
        if d == def { return Err(format!("entry ({i:?}, {d:?}) carries the default")); }
        if got.insert(i.clone(), d).is_some() { return Err(format!("index {i:?} listed twice")); }
    }
    if m.iw <= 16 {
        for k in 0..1u64 << m.iw {
            let i = V::u64(k, m.iw);
            let v = m.get(&i);
            let want = if v == def { None } else { Some(v) };
            if got.get(&i) != want.as_ref() { return Err(format!("entry of {i:?} is {:?}, expected {want:?}", got.get(&i))); }
        }
    } else {
        // too many elements to enumerate: the model default is what almost all elements hold
        if def != m.def { return Err(format!("default {def:?} instead of {:?}", m.def)); }
        for (i, v) in m.m.iter() {
            let want = if *v == def { None } else { Some(v) };
            if got.get(i) != want { return Err(format!("entry of {i:?} is {:?}, expected {want:?}", got.get(i))); }
        }
        for i in got.keys() { if !m.m.contains_key(i) { return Err(format!("unexpected entry at {i:?}")); } }
    }
    Ok(())
}
fn step(g: &mut Gen, a: &mut A, m: &mut M) -> R {
    if g.chance(4) {
        note!(g, "clear");
        a.clear();
        m.clear();
    } else {
        let (i, d) = (index(g, m), datum(g, m));
        note!(g, "store [{i:?}] = {d:?}");
        if g.chance(50) { a.put(&own(&i), &own(&d)); } else {
            let (bi, bd) = (Buf::new(g, &i), Buf::new(g, &d));
            match a { A::Any(a) => a.store(bi.r(), bd.r()), A::S(a) => a.store(bi.r(), bd.r()) }
        }
        m.put(&i, &d);
        same("element just stored", &a.sel(&own(&i)), &d)?;
    }
    Ok(())
}
fn dense(g: &mut Gen, iw: u32, dw: u32) -> (A, M) {
    let def = g.val(dw);
    note!(g, "new_dense({iw}, {def:?})");
    let a = if g.chance(50) { ArrayValue::new_dense(iw, &own(&def)) } else { let b = Buf::new(g, &def); ArrayValue::new_dense(iw, b.r()) };
    (A::Any(a), M { iw, dw, def, m: BTreeMap::new() })
}
fn sparse(g: &mut Gen, iw: u32, dw: u32) -> (A, M) {
    let def = g.val(dw);
    note!(g, "new_sparse({iw}, {def:?})");
    let o = own(&def);
    let a = match g.below(3) { 0 => A::S(SparseArrayValue::new(iw, &o)), 1 => A::Any(ArrayValue::new_sparse(iw, &o)), _ => { let b = Buf::new(g, &def); A::S(SparseArrayValue::new(iw, b.r())) } };
    (a, M { iw, dw, def, m: BTreeMap::new() })
}

/// more elements than 16 bits can count
fn big_array(g: &mut Gen, dw: u32, dense: bool) -> R {
    let iw = 17;
    let n = 1u64 << iw;
    note!(g, "{} array of 2^17 elements of {dw} bits", if dense { "dense" } else { "sparse" });
    let f = |i: u64| { let h = i.wrapping_mul(0x9e3779b97f4a7c15); V::new(dw, vec![h ^ (h >> 29), h]) };
    let def = V::new(dw, vec![5, 1]);
    let mut a = if dense { ArrayValue::new_dense(iw, &own(&def)) } else { ArrayValue::new_sparse(iw, &own(&def)) };
    let touched = |i: u64| i % 3 != 1 || i > n - 4;
    for i in 0..n { if touched(i) { a.store(&BitVecValue::from_u64(i, iw), &own(&f(i))); } }
    let later = |i: u64| i % 1000 == 2;
    for i in 0..n { if later(i) { a.store(&BitVecValue::from_u64(i, iw), &own(&def)); } }
    let want = |i: u64| if touched(i) && !later(i) { f(i) } else { def.clone() };
    for i in 0..n {
        g.evals += 1;
        same(&format!("element {i}"), &a.select(&BitVecValue::from_u64(i, iw)), &want(i))?;
    }
    if !dense {
        let s: SparseArrayValue = a.into();
        same("default", &s.default(), &def)?;
        let mut seen = vec![false; n as usize];
        for (i, d) in s.non_default_entries() {
            let k = i.to_u64().unwrap();
            if seen[k as usize] { return Err(format!("index {k} listed twice")); }
            seen[k as usize] = true;
            same(&format!("entry {k}"), &d, &want(k))?;
        }
        for i in 0..n { if seen[i as usize] != (want(i) != def) { return Err(format!("entry {i} listed: {}", seen[i as usize])); } }
    }
    Ok(())
}

pub fn c15(g: &mut Gen, case: u64) -> R {
    match case { 3 => return big_array(g, 1, true), 19 => return big_array(g, 7, true), 35 => return big_array(g, 40, true), 51 => return big_array(g, 70, true), _ => {} }
    let iw = match g.below(8) { 0 => 0, 1 => 1, 2 => g.range(7, 10), _ => g.range(2, 6) };
    let dw = data_width(g);
    let (mut a, mut m) = dense(g, iw, dw);
    if let A::Any(x) = &a { eqv("is_dense", (x.is_dense(), x.is_sparse()), (true, false))?; }
    shape(&a, &m)?;
    reads(g, &a, &m)?;
    let n = if case % 8 == 0 { 40 } else { 10 };
    for _ in 0..n {
        step(g, &mut a, &mut m)?;
        if g.chance(25) { reads(g, &a, &m)?; }
    }
    let b = a.clone();
    step(g, &mut a, &mut m)?;
    let _ = b;
    shape(&a, &m)?;
    reads(g, &a, &m)
}

/// F11: one-bit dense arrays with 2^32 or more elements
pub fn c15_known() -> Option<String> {
    let ok = std::panic::catch_unwind(|| {
        let a = ArrayValue::new_dense(32, &BitVecValue::fals());
        let i = BitVecValue::from_u64(5, 32);
        view(&a.select(&i)) == V::u64(0, 1)
    });
    match ok { Ok(true) => None, _ => Some(known("ArrayValue::new_dense(32, 1-bit default) followed by select panics: the element count is truncated to the 32-bit width type")) }
}

pub fn c16(g: &mut Gen, case: u64) -> R {
    match case { 3 => return big_array(g, 20, false), 19 => return big_array(g, 70, false), _ => {} }
    let iw = match g.below(10) { 0 => 0, 1 | 2 | 3 => g.range(1, 6), 4 => *g.pick(&[31, 32, 33, 63, 64]), 5 => *g.pick(&[65, 66, 127, 128, 129, 200]), 6 => g.range(7, 64), 7 => g.range(65, 200), _ => g.range(1, 4) };
    let dw = data_width(g);
    let (mut a, mut m) = sparse(g, iw, dw);
    if let A::Any(x) = &a { eqv("is_sparse", (x.is_dense(), x.is_sparse()), (false, true))?; }
    shape(&a, &m)?;
    reads(g, &a, &m)?;
    entries(&a.sparse().unwrap(), &m)?;
    let n = if case % 8 == 0 { 40 } else { 10 };
    for _ in 0..n {
        step(g, &mut a, &mut m)?;
        if g.chance(25) { reads(g, &a, &m)?; entries(&a.sparse().unwrap(), &m)?; }
    }
    shape(&a, &m)?;
    reads(g, &a, &m)?;
    let s = a.sparse().unwrap();
    same("default", &s.default(), &m.def)?;
    entries(&s, &m)?;
    // entries of a converted dense array
    if case % 4 == 0 {
        let iw = g.range(0, 5);
        let (mut a, mut m) = dense(g, iw, dw);
        for _ in 0..8 { step(g, &mut a, &mut m)?; }
        if let A::Any(x) = a { entries(&x.into(), &m)?; }
    }
    Ok(())
}

/// an array in dense or sparse form holding random elements, with a model
fn any(g: &mut Gen, iw: u32, dw: u32, want_dense: bool) -> Result<(ArrayValue, M), String> {
    let (mut a, mut m) = if want_dense { dense(g, iw, dw) } else { sparse(g, iw, dw) };
    let n = match g.below(5) { 0 => 0, 1 => g.below(4), 2 => 12, _ => 1u64 << iw.min(9) };
    for _ in 0..n { step(g, &mut a, &mut m)?; }
    if iw <= 9 && g.chance(40) {
        // write every element: few distinct values, all distinct values, or one frequent value
        let k = g.below(3);
        let hot = g.val(dw);
        note!(g, "fill all elements, kind {k}, hot {hot:?}");
        for i in 0..1u64 << iw {
            let iv = V::u64(i, iw);
            let d = match k { 0 => V::u64(i, dw), 1 => if g.chance(60) { hot.clone() } else { g.val(dw) }, _ => { let h = hot.clone(); g.near(&h) } };
            a.put(&own(&iv), &own(&d));
            m.put(&iv, &d);
        }
    }
    let a = match a { A::Any(a) => a, A::S(s) => { // wrap it: same contents through the generic interface
        let mut x = ArrayValue::new_sparse(iw, &s.default());
        for (i, d) in s.non_default_entries() { x.store(&i, &d); }
        x
    } };
    Ok((a, m))
}

/// more distinct elements than the search for a default looks at
fn c17_giant(g: &mut Gen, wide: bool) -> R {
    let iw = 21;
    let n = 1u64 << iw;
    note!(g, "2^21 elements, all but the last few distinct, {}", if wide { "65 bits" } else { "64 bits" });
    let f = |i: u64| if i >= n - 1000 { 7 } else { i.wrapping_mul(0x9e3779b97f4a7c15) };
    let a = if wide {
        let mut a = ArrayValue::new_dense(iw, &BitVecValue::zero(65));
        for i in 0..n { a.store(&BitVecValue::from_u64(i, iw), &BitVecValue::from_u64(f(i), 65)); }
        a
    } else { ArrayValue::from(&(0..n).map(f).collect::<Vec<u64>>()[..]) };
    let dw = if wide { 65 } else { 64 };
    let s = SparseArrayValue::from(a);
    let mut y = ArrayValue::new_sparse(iw, &s.default());
    for (i, d) in s.non_default_entries() { y.store(&i, &d); }
    y.make_dense();
    eqv("widths", (s.index_width(), s.data_width()), (iw, dw))?;
    for i in (0..n).step_by(3).chain(n - 1005..n) {
        let ix = BitVecValue::from_u64(i, iw);
        same("element", &s.select(&ix), &V::u64(f(i), dw))?;
        same("element after the second conversion", &y.select(&ix), &V::u64(f(i), dw))?;
    }
    Ok(())
}

pub fn c17(g: &mut Gen, case: u64) -> R {
    if case == 3 || case == 35 { return c17_giant(g, case == 35); }
    let iw = match g.below(6) { 0 => 0, 1 => g.range(7, 9), _ => g.range(1, 6) };
    let dw = data_width(g);
    let d = g.chance(50);
    let (a, m) = any(g, iw, dw, d)?;
    note!(g, "convert from {}", if d { "dense" } else { "sparse" });
    // copies
    {
        let mut c = a.clone();
        eqv("kind of a copy", c.is_dense(), a.is_dense())?;
        let y = A::Any(c.clone());
        shape(&y, &m)?;
        full(g, &y, &m)?;
        c.clear();
        full(g, &A::Any(a.clone()), &m)?;
        full(g, &y, &m)?;
    }
    // to dense
    let mut x = a.clone();
    x.make_dense();
    eqv("is_dense after make_dense", (x.is_dense(), x.is_sparse()), (true, false))?;
    let x = A::Any(x);
    shape(&x, &m)?;
    full(g, &x, &m)?;
    // to sparse (also from the array made dense)
    let s = SparseArrayValue::from(a.clone());
    shape(&A::S(s.clone()), &m)?;
    full(g, &A::S(s.clone()), &m)?;
    let A::Any(x) = x else { unreachable!() };
    let t = A::S(SparseArrayValue::from(x));
    shape(&t, &m)?;
    full(g, &t, &m)?;
    // sparse again to dense
    let mut y = ArrayValue::new_sparse(iw, &s.default());
    for (i, d) in s.non_default_entries() { y.store(&i, &d); }
    y.make_dense();
    let y = A::Any(y);
    shape(&y, &m)?;
    full(g, &y, &m)
}
fn full(g: &mut Gen, a: &A, m: &M) -> R {
    for i in 0..1u64 << m.iw {
        g.evals += 1;
        let i = V::u64(i, m.iw);
        same(&format!("element {i:?}"), &a.sel(&own(&i)), &m.get(&i))?;
    }
    Ok(())
}

fn c18_giant(g: &mut Gen, dw: u32) -> R {
    let iw = 17;
    let n = 1u64 << iw;
    note!(g, "arrays of 2^17 elements of {dw} bits");
    let f = |i: u64| { let h = i.wrapping_mul(0x9e3779b97f4a7c15); own(&V::new(dw, vec![h ^ (h >> 29), h])) };
    let z = BitVecValue::zero(dw);
    let (mut a, mut b, mut c) = (ArrayValue::new_dense(iw, &z), ArrayValue::new_dense(iw, &f(1)), ArrayValue::new_sparse(iw, &z));
    for i in 0..n { let k = BitVecValue::from_u64(i, iw); let v = f(i); a.store(&k, &v); b.store(&k, &v); if i % 64 != 9 { c.store(&k, &v); } }
    g.evals += 8;
    eqv("equal arrays", a.is_equal(&b), Some(true))?;
    eqv("arrays with differences", a.is_equal(&c), Some(false))?;
    for i in 0..n { if i % 64 == 9 { c.store(&BitVecValue::from_u64(i, iw), &f(i)); } }
    eqv("equal arrays", a.is_equal(&c), Some(true))?;
    eqv("equal arrays", c.is_equal(&b), Some(true))?;
    for k in [n - 1, 65536, 65535, 8191, 0] {
        let k = BitVecValue::from_u64(k, iw);
        let mut d = b.clone();
        let v = d.select(&k).not();
        d.store(&k, &v);
        eqv("one difference", a.is_equal(&d), Some(false))?;
        let mut e = c.clone();
        e.store(&k, &v);
        eqv("one difference", c.is_equal(&e), Some(false))?;
        eqv("the same difference", d.is_equal(&e), Some(true))?;
    }
    Ok(())
}

pub fn c18(g: &mut Gen, case: u64) -> R {
    match case { 3 => return c18_giant(g, 3), 19 => return c18_giant(g, 70), 35 => return c18_giant(g, 1), 51 => return c18_giant(g, 64), _ => {} }
    let iw = match g.below(8) { 0 => 0, 1 => g.range(5, 8), _ => g.range(1, 4) };
    let dw = data_width(g);
    if case % 7 == 0 {
        // wide index: sparse only
        let iw = *g.pick(&[20, 63, 64, 65, 128, 130]);
        let (mut a, mut ma) = sparse(g, iw, dw);
        let (mut b, mut mb) = if g.chance(50) { (a.clone(), ma.clone()) } else { sparse(g, iw, dw) };
        for _ in 0..6 {
            let (i, d) = (index(g, &ma), datum(g, &ma));
            note!(g, "store [{i:?}] = {d:?}");
            if g.chance(85) { a.put(&own(&i), &own(&d)); ma.put(&i, &d); }
            if g.chance(85) { b.put(&own(&i), &own(&d)); mb.put(&i, &d); }
        }
        let eq = ma.def == mb.def && ma.m.keys().chain(mb.m.keys()).all(|i| ma.get(i) == mb.get(i));
        let gen = |a: &A| -> ArrayValue { match a { A::Any(a) => a.clone(), A::S(s) => { let mut x = ArrayValue::new_sparse(s.index_width(), &s.default()); for (i, d) in s.non_default_entries() { x.store(&i, &d); } x } } };
        let (x, y) = (gen(&a), gen(&b));
        g.evals += 4;
        eqv("is_equal", x.is_equal(&y), Some(eq))?;
        eqv("is_equal", y.is_equal(&x), Some(eq))?;
        eqv("==", x == y, eq)?;
        let z = ArrayValue::new_sparse(iw + 1, &BitVecValue::zero(dw));
        eqv("is_equal, other index width", x.is_equal(&z), None)?;
        return eqv("==, other index width", x == z, false);
    }
    let da = g.chance(50);
    let (a, ma) = any(g, iw, dw, da)?;
    // the second array: unrelated, or the same elements produced in another way
    let (b, mb) = if g.chance(20) {
        let (iw2, dw2) = match g.below(3) { 0 => (iw + 1, dw), 1 => (iw, { let mut d = data_width(g); if d == dw { d += 1; } d }), _ => (iw, dw) };
        let d = g.chance(50);
        any(g, iw2, dw2, d)?
    } else {
        let d = g.chance(50);
        note!(g, "second array:");
        let (mut b, mut mb) = if d { dense(g, iw, dw) } else { sparse(g, iw, dw) };
        for _ in 0..g.below(4) { step(g, &mut b, &mut mb)?; }
        let mut order: Vec<u64> = (0..1u64 << iw).collect();
        if g.chance(50) { order.reverse(); }
        for i in order {
            let iv = V::u64(i, iw);
            let v = ma.get(&iv);
            b.put(&own(&iv), &own(&v));
            mb.put(&iv, &v);
        }
        if g.chance(50) { // one difference
            let i = g.val(iw);
            let v = mb.get(&i);
            let v = g.near(&v);
            note!(g, "change [{i:?}] = {v:?}");
            b.put(&own(&i), &own(&v));
            mb.put(&i, &v);
        }
        let b = match b { A::Any(b) => b, A::S(s) => { let mut x = ArrayValue::new_sparse(iw, &s.default()); for (i, d) in s.non_default_entries() { x.store(&i, &d); } x } };
        (b, mb)
    };
    let want = if ma.iw != mb.iw || ma.dw != mb.dw { None } else { Some((0..1u64 << ma.iw).all(|i| { let i = V::u64(i, ma.iw); ma.get(&i) == mb.get(&i) })) };
    note!(g, "compare {} with {}", if a.is_dense() { "dense" } else { "sparse" }, if b.is_dense() { "dense" } else { "sparse" });
    g.evals += 6;
    eqv("is_equal", a.is_equal(&b), want)?;
    eqv("is_equal (swapped)", b.is_equal(&a), want)?;
    eqv("==", a == b, want == Some(true))?;
    eqv("== (swapped)", b == a, want == Some(true))?;
    eqv("a.is_equal(a)", a.is_equal(&a), Some(true))?;
    eqv("a == copy of a", a == a.clone(), true)
}

/// more elements than single precision or 16 and 24 bit counters can tell apart
fn c19_giant(g: &mut Gen, kind: u64, n: usize) -> R {
    note!(g, "slice kind {kind} of {n} elements");
    let at = |i: usize| mix(i as u64 ^ 0x5bd1e995);
    let (a, dw) = match kind {
        0 => (ArrayValue::from(&(0..n).map(|i| at(i) & 1 == 1).collect::<Vec<bool>>()[..]), 1),
        _ => (ArrayValue::from(&(0..n).map(|i| at(i) as u8).collect::<Vec<u8>>()[..]), 8),
    };
    let mut iw = 0;
    while (1usize << iw) < n { iw += 1; }
    eqv("data width", a.data_width(), dw)?;
    eqv("index width", a.index_width(), iw)?;
    eqv("number of elements", a.num_elements(), 1 << iw)?;
    for k in 0..4000u64 {
        g.evals += 1;
        let i = match k % 4 { 0 => n as u64 - 1 - k / 4, 1 => n as u64 + k / 4, 2 => k / 4, _ => g.below(1 << iw) } & ((1 << iw) - 1);
        let want = V::u64(if (i as usize) < n { at(i as usize) & top(dw) } else { 0 }, dw);
        same(&format!("element {i}"), &a.select(&own(&V::u64(i, iw))), &want)?;
    }
    Ok(())
}

pub fn c19(g: &mut Gen, case: u64) -> R {
    match case { 71 => return c19_giant(g, 0, (1 << 24) + 1), 87 => return c19_giant(g, 1, (1 << 24) + 1), 103 => return c19_giant(g, 1, 1 << 24), _ => {} }
    let n = if case < 70 { case as usize } else if case % 1024 == 75 { 65_000 + g.below(2000) as usize } else { match g.below(4) { 3 if !dict().is_empty() => g.from_dict().unwrap().min(5000) as usize, 0 => (1usize << g.below(9)) + g.below(3) as usize - 1, _ => g.below(300) as usize } };
    let kind = g.below(3);
    let raw: Vec<u64> = (0..n).map(|_| g.word()).collect();
    stir(kind as u32, &raw);
    note!(g, "slice kind {kind}: {raw:x?}");
    let (a, dw) = match kind {
        0 => (ArrayValue::from(&raw.iter().map(|v| v & 1 == 1).collect::<Vec<bool>>()[..]), 1),
        1 => (ArrayValue::from(&raw.iter().map(|v| *v as u8).collect::<Vec<u8>>()[..]), 8),
        _ => (ArrayValue::from(&raw[..]), 64),
    };
    let mut iw = 0;
    while (1usize << iw) < n { iw += 1; }
    eqv("data width", a.data_width(), dw)?;
    eqv("index width", a.index_width(), iw)?;
    eqv("number of elements", a.num_elements(), 1 << iw)?;
    eqv("is_dense", (a.is_dense(), a.is_sparse()), (true, false))?;
    for i in 0..1u64 << iw {
        g.evals += 1;
        let want = V::u64(raw.get(i as usize).copied().unwrap_or(0) & top(dw), dw);
        same(&format!("element {i}"), &a.select(&own(&V::u64(i, iw))), &want)?;
    }
    // later stores, clears and comparisons work on all elements
    if n > 0 {
        let mut b = a.clone();
        let i = V::u64(g.below(1 << iw), iw);
        let d = g.val(dw);
        b.store(&own(&i), &own(&d));
        same("stored element", &b.select(&own(&i)), &d)?;
    }
    Ok(())
}

pub fn c23(g: &mut Gen, _case: u64) -> R {
    let w = g.width_in(1, 300);
    let a = g.val(w);
    let b = if g.chance(50) { g.near(&a) } else { let w = g.range(1.max(w - w.min(2)), w + 2); V::new(w, a.x.clone()) };
    let iw = g.range(0, 4);
    let dw = data_width(g);
    let d = g.chance(50);
    let (x, mx) = any(g, iw, dw, d)?;
    let same_dims = g.chance(70);
    let d2 = g.chance(50);
    let (y, my) = if g.chance(30) { (x.clone(), mx.clone()) } else { any(g, if same_dims { iw } else { iw + 1 }, dw, d2)? };
    note!(g, "values {a:?} {b:?}");
    let (va, vb) = (Value::BitVec(own(&a)), Value::BitVec(own(&b)));
    let (vx, vy) = (Value::Array(x.clone()), Value::Array(y.clone()));
    g.evals += 8;
    match BitVecValue::try_from(va.clone()) { Ok(v) => same("unwrapped bit-vector", &v, &a)?, Err(_) => return Err("bit-vector refused".into()) }
    match ArrayValue::try_from(vx.clone()) {
        Ok(v) => { eqv("kind", v.is_dense(), x.is_dense())?; let v = A::Any(v); shape(&v, &mx)?; full(g, &v, &mx)?; }
        Err(_) => return Err("array refused".into()),
    }
    if ArrayValue::try_from(va.clone()).is_ok() { return Err("bit-vector unwrapped as an array".into()); }
    if BitVecValue::try_from(vx.clone()).is_ok() { return Err("array unwrapped as a bit-vector".into()); }
    eqv("wrapped bit-vectors", va == vb, a == b)?;
    eqv("wrapped bit-vectors", va == va.clone(), true)?;
    let eq = mx.iw == my.iw && (0..1u64 << mx.iw).all(|i| { let i = V::u64(i, mx.iw); mx.get(&i) == my.get(&i) });
    eqv("wrapped arrays", vx == vy, eq)?;
    eqv("wrapped arrays", vx == vx.clone(), true)?;
    if va == vx || vx == va { return Err("a bit-vector equals an array".into()); }
    Ok(())
}
