//! Case generation and reference arithmetic (independent of the code under test).
use baa::*;
use num_bigint::{BigInt, BigUint};

pub type R = Result<(), String>;

pub struct Gen {
    s: u64,
    /// description of the case, filled while tracing
    pub log: Option<String>,
    /// what was exercised
    pub evals: u64,
}

#[macro_export]
macro_rules! note { ($g:expr, $($a:tt)*) => { if $g.log.is_some() { let t = format!($($a)*); let l = $g.log.as_mut().unwrap(); l.push_str(&t); l.push('\n'); } } }

#[macro_export]
macro_rules! ck { ($g:expr, $c:expr, $($a:tt)*) => { { $g.evals += 1; if !$c { return Err(format!($($a)*)); } } } }

thread_local! {
    /// hash of the operand contents of the current case
    pub static HASH: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub fn stir(w: u32, x: &[u64]) {
    HASH.with(|h| {
        let mut a = mix(h.get() ^ w as u64);
        for v in x { a = mix(a ^ *v); }
        h.set(a);
    });
}
/// numbers worth trying, taken from the source text (VX_DICT)
pub fn dict() -> &'static [u64] {
    static D: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    D.get_or_init(|| std::env::var("VX_DICT").unwrap_or_default().split(',').filter_map(|t| t.trim().parse().ok()).collect())
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// A bit-vector as plain data: canonical words.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct V {
    pub w: u32,
    pub x: Vec<u64>,
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}'0x", self.w)?;
        if self.x.is_empty() { write!(f, "-")?; }
        for x in self.x.iter().rev() { write!(f, "{:016x}", x)?; }
        Ok(())
    }
}

pub fn nw(w: u32) -> usize { (w as usize + 63) / 64 }
pub fn top(w: u32) -> u64 { if w % 64 == 0 { u64::MAX } else { (1u64 << (w % 64)) - 1 } }

pub fn big(x: &[u64]) -> BigUint {
    let mut d = Vec::with_capacity(x.len() * 2);
    for v in x { d.push(*v as u32); d.push((*v >> 32) as u32); }
    BigUint::from_slice(&d)
}
pub fn p2(n: u64) -> BigUint { BigUint::from(1u8) << n }

impl V {
    pub fn new(w: u32, mut x: Vec<u64>) -> V {
        x.resize(nw(w), 0);
        if let Some(l) = x.last_mut() { *l &= top(w); }
        V { w, x }
    }
    pub fn of_big(b: &BigUint, w: u32) -> V {
        let m = b % p2(w as u64);
        V::new(w, m.to_u64_digits())
    }
    pub fn of_int(b: &BigInt, w: u32) -> V {
        let m = BigInt::from(p2(w as u64));
        let r = ((b % &m) + &m) % &m;
        V::of_big(&r.to_biguint().unwrap(), w)
    }
    pub fn u64(v: u64, w: u32) -> V { V::new(w, vec![v]) }
    pub fn big(&self) -> BigUint { big(&self.x) }
    pub fn bit(&self, i: u32) -> bool { (self.x[(i / 64) as usize] >> (i % 64)) & 1 == 1 }
    pub fn neg(&self) -> bool { self.w > 0 && self.bit(self.w - 1) }
    pub fn int(&self) -> BigInt {
        let u = BigInt::from(self.big());
        if self.neg() { u - BigInt::from(p2(self.w as u64)) } else { u }
    }
    pub fn zero(&self) -> bool { self.x.iter().all(|v| *v == 0) }
    pub fn from_bits(b: &[bool]) -> V {
        let mut x = vec![0u64; nw(b.len() as u32)];
        for (i, v) in b.iter().enumerate() { if *v { x[i / 64] |= 1 << (i % 64); } }
        V { w: b.len() as u32, x }
    }
    pub fn bits(&self) -> Vec<bool> { (0..self.w).map(|i| self.bit(i)).collect() }
}

pub fn view<B: BitVecOps + ?Sized>(b: &B) -> V { V { w: b.width(), x: b.words().to_vec() } }

/// canonical?
pub fn canon<B: BitVecOps + ?Sized>(what: &str, b: &B) -> R {
    let (w, x) = (b.width(), b.words());
    if x.len() != nw(w) { return Err(format!("{what}: width {w} stored in {} words", x.len())); }
    if w > 0 && x[x.len() - 1] & !top(w) != 0 { return Err(format!("{what}: bits above width {w} are set: {:x?}", x)); }
    Ok(())
}

/// result has exactly this width and these words
pub fn same<B: BitVecOps + ?Sized>(what: &str, b: &B, want: &V) -> R {
    let got = view(b);
    if got == *want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}
pub fn eqv<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}

pub const EDGE: &[u32] = &[
    1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 56, 60, 61, 62, 63, 64, 65, 66, 72, 80, 95, 96, 97, 112, 120, 126, 127, 128, 129, 130, 160, 188,
    190, 191, 192, 193, 194, 224, 255, 256, 257, 319, 320, 321, 383, 384, 385, 448, 511, 512, 513,
];

impl Gen {
    pub fn new(seed: u64, case: u64) -> Gen { Gen { s: mix(mix(seed) ^ case.wrapping_mul(0xd1342543de82ef95)), log: None, evals: 0 } }
    pub fn next(&mut self) -> u64 { self.s = self.s.wrapping_add(0x9e3779b97f4a7c15); mix(self.s) }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 { lo + self.below((hi - lo) as u64 + 1) as u32 }
    pub fn chance(&mut self, pct: u64) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }

    pub fn from_dict(&mut self) -> Option<u64> {
        if dict().is_empty() { return None; }
        let v = *self.pick(dict());
        Some(match self.below(6) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), _ => v })
    }
    pub fn width(&mut self) -> u32 {
        if !dict().is_empty() && self.chance(12) {
            let v = self.from_dict().unwrap();
            let v = match self.below(4) { 0 => v.wrapping_mul(64), 1 => v.wrapping_add(self.below(64)), _ => v };
            if v >= 1 && (v <= 4200 || v <= 200_000 && self.chance(3)) { return v as u32; }
        }
        match self.below(20) {
            0..=5 => self.range(1, 8),
            6..=11 => *self.pick(EDGE),
            12..=14 => self.range(9, 64),
            15..=17 => self.range(65, 200),
            18 => self.range(200, 520),
            _ => if self.chance(20) { if self.chance(3) { if self.chance(10) { self.range(520_000, 1_100_000) } else { self.range(4200, 70000) } } else { self.range(520, 4200) } } else { self.range(520, 1100) },
        }
    }
    pub fn width_in(&mut self, lo: u32, hi: u32) -> u32 {
        for _ in 0..20 {
            let w = self.width();
            if w >= lo && w <= hi { return w; }
        }
        self.range(lo, hi)
    }
    pub fn word(&mut self) -> u64 {
        if !dict().is_empty() && self.chance(12) { return self.from_dict().unwrap(); }
        match self.below(12) {
            0 | 1 => 0,
            2 | 3 => u64::MAX,
            4 => 1,
            5 => 1 << 63,
            6 => 1u64 << self.below(64),
            7 => !(1u64 << self.below(64)),
            8 => self.below(300),
            9 => self.next() & self.next() & self.next(),
            _ => self.next(),
        }
    }
    pub fn val(&mut self, w: u32) -> V {
        let n = nw(w);
        let mut x: Vec<u64> = match self.below(12) {
            0 => vec![0; n],
            1 => vec![u64::MAX; n],
            2 => { let mut x = vec![0; n]; if w > 0 { let k = w - 1; x[(k / 64) as usize] = 1 << (k % 64); } x }
            3 => { let mut x = vec![u64::MAX; n]; if w > 0 { let k = w - 1; x[(k / 64) as usize] = !(1 << (k % 64)); } x }
            4 => { let mut x = vec![0; n]; if n > 0 { x[0] = self.below(20); } x }
            5 => { let mut x = vec![u64::MAX; n]; if n > 0 { x[0] = u64::MAX - self.below(20); } x }
            6 => { let mut x = vec![0; n]; if n > 0 { let k = self.below(n as u64) as usize; x[k] = self.word(); } x }
            7 => { let mut x = vec![u64::MAX; n]; if n > 0 { let k = self.below(n as u64) as usize; x[k] = self.word(); } x }
            8 => (0..n).map(|_| self.next()).collect(),
            _ => (0..n).map(|_| self.word()).collect(),
        };
        if n > 0 && self.chance(8) { x[0] = self.word(); }
        if n > 0 && self.chance(8) { x[n - 1] = 0; }
        V::new(w, x)
    }
    /// a value related to `a` of the same width
    pub fn near(&mut self, a: &V) -> V {
        if a.w == 0 { return a.clone(); }
        let m = p2(a.w as u64);
        match self.below(12) {
            0 | 1 => a.clone(),
            2 => V::of_big(&(a.big() + 1u8), a.w),
            3 => V::of_big(&(a.big() + &m - 1u8), a.w),
            4 => V::of_big(&(&m - a.big()), a.w),
            5 => V::of_big(&(&m - 1u8 - a.big()), a.w),
            6 => { let k = self.below(a.w as u64) as u32; let mut b = a.clone(); b.x[(k / 64) as usize] ^= 1 << (k % 64); b }
            7 => { let k = self.below(a.x.len() as u64) as usize; let mut b = a.clone(); b.x[k] = self.word(); V::new(b.w, b.x) }
            8 => { let k = a.w - 1; let mut b = a.clone(); b.x[(k / 64) as usize] ^= 1 << (k % 64); b }
            _ => self.val(a.w),
        }
    }
    /// shift amount of width w
    pub fn amount(&mut self, w: u32) -> V {
        if !dict().is_empty() && self.chance(12) { let v = self.from_dict().unwrap(); return V::of_big(&BigUint::from(v), w); }
        let wb = BigUint::from(w);
        match self.below(14) {
            0 => V::u64(0, w),
            1 | 2 | 3 => { let k = self.below(w as u64 + 3); V::of_big(&BigUint::from(k), w) }
            4 | 5 => { let k = self.below(w as u64 / 64 + 2) * 64; V::of_big(&BigUint::from(k), w) }
            6 => V::of_big(&(wb + self.below(3)), w),
            7 => V::of_big(&(wb - 1u8), w),
            8 => { let k = self.below(w as u64 + 2); let h = 1u64 << self.below(64); V::of_big(&(BigUint::from(k) + (BigUint::from(h))), w) }
            9 => { // small low word, something in a high word
                let k = self.below(w as u64 + 2); let mut x = vec![0; nw(w)]; x[0] = k;
                let n = x.len() as u64; let j = self.below(n) as usize; if j > 0 { x[j] = 1 << self.below(64); } V::new(w, x) }
            10 => V::of_big(&(BigUint::from(1u64 << 32) + self.below(w as u64 + 2)), w),
            11 => { let k = self.below(w as u64 + 3).min(70); V::u64(k, w) }
            _ => self.val(w),
        }
    }
    /// `n` words of noise
    pub fn noise(&mut self, n: usize) -> Vec<u64> { (0..n).map(|_| match self.below(4) { 0 => u64::MAX, 1 => 0xdeadbeefdeadbeef, _ => self.next() }).collect() }
}

/// An operand in one of the public representations. The word buffer is larger than the value.
pub struct Buf { pub w: u32, pub off: usize, pub words: Vec<u64> }
impl Buf {
    pub fn new(g: &mut Gen, v: &V) -> Buf {
        stir(v.w, &v.x);
        let off = g.below(4) as usize;
        let tail = g.below(3) as usize;
        let mut words = g.noise(off + v.x.len() + tail);
        words[off..off + v.x.len()].copy_from_slice(&v.x);
        Buf { w: v.w, off, words }
    }
    pub fn idx(&self) -> BitVecValueIndex { BitVecValueIndex::new(self.off as u32, self.w) }
    pub fn r(&self) -> BitVecValueRef<'_> { IndexToRef::<BitVecValueIndex, BitVecValueRef>::get_ref(&self.words[..], self.idx()) }
    pub fn m(&mut self) -> BitVecValueMutRef<'_> { let i = self.idx(); IndexToMutRef::<BitVecValueIndex, BitVecValueMutRef>::get_mut_ref(&mut self.words[..], i) }
}
/// an owned value with the given contents
pub fn own(v: &V) -> BitVecValue {
    stir(v.w, &v.x);
    let b: BitVecValue = BitVecValue::from(IndexToRef::<BitVecValueIndex, BitVecValueRef>::get_ref(&v.x[..], BitVecValueIndex::new(0, v.w)));
    if view(&b) != *v {
        // the conversion itself is broken: fall back to another way to build an owned value
        let mut z = BitVecValue::zero(v.w);
        z.words_mut().copy_from_slice(&v.x);
        assert!(view(&z) == *v, "cannot build an owned value: {:?} became {:?}", v, view(&b));
        return z;
    }
    b
}
