// ---------------------------------------------------------------------------------------------
// the fraction crate: external type with assumed contracts
// ---------------------------------------------------------------------------------------------
pub mod fraction {
    use super::*;
    #[verifier::external_body]
    pub struct Fraction { x: u64 }
    impl Fraction {
        /// the fraction denotes the rational number n / d
        pub uninterp spec fn is_rat(&self, n: int, d: int) -> bool;
        #[verifier::external_body]
        pub fn new(n: u64, d: u64) -> (r: Fraction)
            requires d != 0,
            ensures r.is_rat(n as int, d as int),
        { unimplemented!() }
    }
    impl vstd::std_specs::ops::NegSpecImpl for Fraction {
        open spec fn obeys_neg_spec() -> bool { false }
        open spec fn neg_req(self) -> bool { true }
        open spec fn neg_spec(self) -> Fraction { arbitrary() }
    }
    impl core::ops::Neg for Fraction {
        type Output = Fraction;
        #[verifier::external_body]
        fn neg(self) -> (r: Fraction)
            ensures forall|n: int, d: int| #[trigger] self.is_rat(n, d) ==> r.is_rat(-n, d),
        { unimplemented!() }
    }
}
pub assume_specification[ u64::checked_shl ](a: u64, b: u32) -> (r: Option<u64>)
    ensures b < 64 ==> r == Some(a << b), b >= 64 ==> r is None,
;
pub proof fn one_shl(f: u32)
    requires f < 64,
    ensures (1u64 << f) == p2(f as int), (1u64 << f) > 0,
{
    p2_64(); p2_pos(f as int); p2_lt(f as int, 64);
    lemma_u64_shl_is_mul(1, f as u64);
    assert(1u64 << f == 1u64 << (f as u64)) by (bit_vector) requires f < 64;
}
