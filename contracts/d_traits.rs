// ---------------------------------------------------------------------------------------------
// Conversions. `From`/`Into` of the standard library cannot carry contracts; the extractor
// replaces them by these traits (same method bodies, same call structure).
// ---------------------------------------------------------------------------------------------
pub trait VxView {
    type V;
    spec fn vw(&self) -> Self::V;
}
pub trait VxFrom<T>: Sized + VxView {
    spec fn vx_from_req(v: T) -> bool;
    spec fn vx_from_spec(v: T) -> Self::V;
    fn vx_from(v: T) -> (r: Self)
        requires Self::vx_from_req(v),
        ensures r.vw() == Self::vx_from_spec(v),
    ;
}
pub trait VxInto<T: VxView>: Sized {
    spec fn vx_into_req(self) -> bool;
    spec fn vx_into_spec(self) -> T::V;
    fn vx_into(self) -> (r: T)
        requires self.vx_into_req(),
        ensures r.vw() == self.vx_into_spec(),
    ;
}
impl<T, U: VxFrom<T>> VxInto<U> for T {
    open spec fn vx_into_req(self) -> bool { U::vx_from_req(self) }
    open spec fn vx_into_spec(self) -> U::V { U::vx_from_spec(self) }
    fn vx_into(self) -> (r: U) { U::vx_from(self) }
}
/// `==` as emitted for `#[derive(PartialEq)]`
pub trait VxEq {
    spec fn vx_eq_req(&self, o: &Self) -> bool;
    spec fn vx_eq_is(&self, o: &Self) -> bool;
    fn vx_eq(&self, o: &Self) -> (r: bool)
        requires self.vx_eq_req(o),
        ensures r == self.vx_eq_is(o),
    ;
}
impl VxEq for u32 {
    open spec fn vx_eq_req(&self, o: &Self) -> bool { true }
    open spec fn vx_eq_is(&self, o: &Self) -> bool { *self == *o }
    fn vx_eq(&self, o: &Self) -> (r: bool) { *self == *o }
}
/// std::hash::Hasher: what was fed to it
pub trait VxHasher: Sized {
    spec fn log(&self) -> Seq<int>;
}
/// std::hash::Hash (assumed for numbers and lists of words: what they feed depends on their content only)
pub trait VxHash {
    spec fn hv(&self) -> Seq<int>;
    fn vx_hash<H: VxHasher>(&self, state: &mut H)
        ensures final(state).log() == old(state).log() + self.hv(),
    ;
}
pub uninterp spec fn hash_u32(x: u32) -> Seq<int>;
pub uninterp spec fn hash_words(x: Seq<u64>) -> Seq<int>;
impl VxHash for u32 {
    open spec fn hv(&self) -> Seq<int> { hash_u32(*self) }
    #[verifier::external_body]
    fn vx_hash<H: VxHasher>(&self, state: &mut H) { unimplemented!() }
}
impl VxHash for Vec<u64> {
    open spec fn hv(&self) -> Seq<int> { hash_words(self@) }
    #[verifier::external_body]
    fn vx_hash<H: VxHasher>(&self, state: &mut H) { unimplemented!() }
}
impl VxHash for [u64] {
    open spec fn hv(&self) -> Seq<int> { hash_words(self@) }
    #[verifier::external_body]
    fn vx_hash<H: VxHasher>(&self, state: &mut H) { unimplemented!() }
}
