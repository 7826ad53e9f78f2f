use vstd::prelude::*;
use crate::ext::sha2::Sha256;
use crate::ext::cipher::InvalidLength;
verus! {
pub uninterp spec fn hmac_sha256(key: Seq<u8>, data: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_hmac_len(k: Seq<u8>, d: Seq<u8>) ensures (#[trigger] hmac_sha256(k, d)).len() == 32;
pub trait Mac {}
#[verifier::reject_recursive_types(D)]
pub struct Hmac<D> { key: Ghost<Seq<u8>>, fed: Ghost<Seq<u8>>, p: core::marker::PhantomData<D> }
#[derive(Debug)]
pub struct MacError { p: u64 }
impl Hmac<Sha256> {
    pub closed spec fn key(&self) -> Seq<u8> { self.key@ }
    pub closed spec fn fed(&self) -> Seq<u8> { self.fed@ }
    /// HMAC takes keys of any length
    pub fn new_from_slice(k: &[u8]) -> (r: Result<Self, InvalidLength>)
        ensures r is Ok, r->Ok_0.key() == k@, r->Ok_0.fed() == Seq::<u8>::empty() { Ok(Hmac { key: Ghost(k@), fed: Ghost(Seq::empty()), p: core::marker::PhantomData }) }
    pub fn update(&mut self, b: &[u8])
        ensures final(self).key() == old(self).key(), final(self).fed() == old(self).fed() + b@ { self.fed = Ghost(self.fed@ + b@); }
    pub fn verify_slice(self, tag: &[u8]) -> (r: Result<(), MacError>)
        ensures r is Ok <==> tag@ == hmac_sha256(self.key(), self.fed())
    { proof { broadcast use axiom_hmac_len; let h = hmac_sha256(self.key(), self.fed()); assert(h.take(32) =~= h); }
      if tag.len() == 32 { self.verify_truncated_left(tag) } else { Err(MacError { p: crate::ext::prelude::unknown() }) } }
    pub fn verify_truncated_left(self, tag: &[u8]) -> (r: Result<(), MacError>)
        ensures r is Ok <==> tag@.len() > 0 && tag@.len() <= 32 && tag@ == hmac_sha256(self.key(), self.fed()).take(tag@.len() as int)
    {
        proof { broadcast use axiom_hmac_len; }
        let ghost code = hmac_sha256(self.key(), self.fed());
        let c = self.finalize().into_bytes_e();
        if tag.len() == 0 || tag.len() > 32 { return Err(MacError { p: crate::ext::prelude::unknown() }); }
        let mut same = true;
        let mut i = 0;
        while i < tag.len()
            invariant i <= tag@.len() <= 32, c@ == code, code.len() == 32, same <==> forall|k: int| 0 <= k < i ==> tag@[k] == code[k],
            decreases tag@.len() - i
        {
            if tag[i] != c[i] { same = false; }
            i += 1;
        }
        proof { assert(same <==> tag@ =~= code.take(tag@.len() as int)); }
        if same { Ok(()) } else { Err(MacError { p: crate::ext::prelude::unknown() }) }
    }
    #[verifier::external_body] pub fn finalize(self) -> (r: digest::CtOutput<Self>)
        ensures r@ == hmac_sha256(self.key(), self.fed()) { unimplemented!() }
}
}
pub mod digest {
    use vstd::prelude::*;
    verus! {
    #[verifier::reject_recursive_types(D)]
    pub struct CtOutput<D> { b: [u8; 32], p: core::marker::PhantomData<D> }
    impl<D> CtOutput<D> {
        pub closed spec fn view(&self) -> Seq<u8> { self.b@ }
        pub fn into_bytes_e(self) -> (r: [u8; 32]) ensures r@ == self@ { self.b }
    }
    }
}
