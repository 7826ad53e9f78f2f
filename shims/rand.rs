use vstd::prelude::*;
verus! {
/// s is the complete result of the request to the system generator made at the given place of the source
pub uninterp spec fn from_os(s: Seq<u8>, site: int) -> bool;
pub trait RngCore {}
pub trait FillE { spec fn filled(&self) -> Seq<u8>; }
impl FillE for Vec<u8> { open spec fn filled(&self) -> Seq<u8> { self@ } }
impl<const N: usize> FillE for [u8; N] { open spec fn filled(&self) -> Seq<u8> { self@ } }
impl FillE for [u8] { open spec fn filled(&self) -> Seq<u8> { self@ } }
}
pub mod rngs {
    use vstd::prelude::*;
    verus! {
    pub struct OsRng;
    impl OsRng {
        #[verifier::external_body]
        pub fn fill_bytes_e<B: super::FillE + ?Sized>(&self, b: &mut B, site: u64)
            ensures final(b).filled().len() == old(b).filled().len(), super::from_os(final(b).filled(), site as int) { unimplemented!() }
    }
    }
}
