use vstd::prelude::*;
use crate::ext::prelude::*;
verus! {
pub uninterp spec fn sha256(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn sha512(s: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_sha256_len(s: Seq<u8>) ensures (#[trigger] sha256(s)).len() == 32;
pub broadcast axiom fn axiom_sha512_len(s: Seq<u8>) ensures (#[trigger] sha512(s)).len() == 64;

pub trait Digest {}
pub struct Sha256 { fed: Ghost<Seq<u8>> }
pub struct Sha512 { fed: Ghost<Seq<u8>> }
impl Sha256 {
    pub closed spec fn fed(&self) -> Seq<u8> { self.fed@ }
    pub fn new() -> (r: Sha256) ensures r.fed() == Seq::<u8>::empty() { Sha256 { fed: Ghost(Seq::empty()) } }
    pub fn update<B: Bytes>(&mut self, b: B) ensures final(self).fed() == old(self).fed() + b.bytes() { self.fed = Ghost(self.fed@ + b.bytes()); }
    #[verifier::external_body] pub fn finalize(self) -> (r: [u8; 32]) ensures r@ == sha256(self.fed()) { unimplemented!() }
    pub fn digest<B: Bytes>(b: B) -> (r: [u8; 32]) ensures r@ == sha256(b.bytes()) { let mut h = Sha256::new(); h.update(b); proof { assert(h.fed() =~= b.bytes()); } h.finalize() }
    pub fn output_size() -> (r: usize) ensures r == 32 { 32 }
}
impl Sha512 {
    pub closed spec fn fed(&self) -> Seq<u8> { self.fed@ }
    pub fn new() -> (r: Sha512) ensures r.fed() == Seq::<u8>::empty() { Sha512 { fed: Ghost(Seq::empty()) } }
    pub fn update<B: Bytes>(&mut self, b: B) ensures final(self).fed() == old(self).fed() + b.bytes() { self.fed = Ghost(self.fed@ + b.bytes()); }
    #[verifier::external_body] pub fn finalize(self) -> (r: [u8; 64]) ensures r@ == sha512(self.fed()) { unimplemented!() }
    pub fn digest<B: Bytes>(b: B) -> (r: [u8; 64]) ensures r@ == sha512(b.bytes()) { let mut h = Sha512::new(); h.update(b); proof { assert(h.fed() =~= b.bytes()); } h.finalize() }
    pub fn output_size() -> (r: usize) ensures r == 64 { 64 }
}
}
