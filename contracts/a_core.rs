global size_of usize == 8;
// ---------------------------------------------------------------------------------------------
// Helpers that the extractor refers to.
// ---------------------------------------------------------------------------------------------
pub fn vx_assert(c: bool)
    requires c,
{
}

#[verifier::external_body]
pub fn vx_panic() -> !
    requires false,
{
    panic!()
}

pub fn vx_min(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { a } else { b },
{
    if a < b { a } else { b }
}

pub fn vx_sat_sub(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { 0int } else { a - b },
{
    if a < b { 0 } else { a - b }
}

// length of a chain: an iterator longer than usize::MAX is never materialised
pub fn vx_add_len(a: usize, b: usize) -> (r: usize)
    ensures a + b <= usize::MAX ==> r == a + b, a + b > usize::MAX ==> r == usize::MAX,
{
    if a <= usize::MAX - b { a + b } else { usize::MAX }
}

pub assume_specification[ u32::div_ceil ](a: u32, b: u32) -> (r: u32)
    requires b != 0,
    ensures r == (a as int + b as int - 1) / (b as int),
;

pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures o is None <==> r is None, o is Some ==> r == Some(*o->0),
;
pub assume_specification[ u64::overflowing_mul ](a: u64, b: u64) -> (r: (u64, bool))
    ensures r.0 == (a as int * b as int) % 0x1_0000_0000_0000_0000, r.1 == (a as int * b as int >= 0x1_0000_0000_0000_0000),
;
pub assume_specification[ u64::overflowing_add ](a: u64, b: u64) -> (r: (u64, bool))
    ensures r.0 == (a as int + b as int) % 0x1_0000_0000_0000_0000, r.1 == (a as int + b as int >= 0x1_0000_0000_0000_0000),
;
pub assume_specification<T: Clone>[ <[T]>::clone_from_slice ](d: &mut [T], s: &[T])
    requires old(d)@.len() == s@.len(),
    ensures final(d)@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] final(d)@[i]),
;
/// `vec![v; n]` / `smallvec![v; n]`
pub fn vx_vec_repeat<T: Copy>(v: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == v,
{
    let mut r: Vec<T> = Vec::new();
    let mut i = 0usize;
    while i < n
        invariant i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> r@[j] == v,
        decreases n - i,
    {
        r.push(v);
        i = i + 1;
    }
    r
}
/// `SmallVec::from_slice`
pub fn vx_from_slice(s: &[u64]) -> (r: Vec<u64>)
    ensures r@ == s@,
{
    let mut r: Vec<u64> = Vec::new();
    let mut i = 0usize;
    while i < s.len()
        invariant i <= s@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> r@[j] == s@[j],
        decreases s@.len() - i,
    {
        r.push(s[i]);
        i = i + 1;
    }
    proof { assert(r@ =~= s@); }
    r
}

/// `&mut v[a..b]` is emitted as `&mut v.vx_ms()[a..b]`: the whole vector as a slice, then the range
pub trait VxMutSlice<T> {
    spec fn vx_sv(&self) -> Seq<T>;
    fn vx_ms(&mut self) -> (r: &mut [T])
        ensures r@ == old(self).vx_sv(), final(self).vx_sv() == final(r)@,
    ;
}
impl<T> VxMutSlice<T> for Vec<T> {
    open spec fn vx_sv(&self) -> Seq<T> { self@ }
    fn vx_ms(&mut self) -> (r: &mut [T]) { &mut *self }
}
impl<T> VxMutSlice<T> for [T] {
    open spec fn vx_sv(&self) -> Seq<T> { self@ }
    fn vx_ms(&mut self) -> (r: &mut [T]) { self }
}
/// `slice.fill(v)`
pub fn vx_fill<T: Copy>(s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|j: int| 0 <= j < final(s)@.len() ==> #[trigger] final(s)@[j] == v,
{
    let mut i: usize = 0;
    let n = s.len();
    while i < n
        invariant i <= n, n == s@.len(), s@.len() == old(s)@.len(), forall|j: int| 0 <= j < i ==> #[trigger] s@[j] == v,
        decreases n - i,
    {
        s[i] = v;
        i = i + 1;
    }
}
