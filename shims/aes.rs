use vstd::prelude::*;
use crate::ext::cipher::*;
verus! {
#[verifier::external_body]
pub struct Aes256 { p: () }
#[verifier::external_body]
pub struct Aes128 { p: () }
impl BlockCipher for Aes256 {} impl BlockEncryptMut for Aes256 {} impl BlockDecryptMut for Aes256 {} impl BlockEncrypt for Aes256 {} impl BlockDecrypt for Aes256 {} impl KeyInit for Aes256 {}
impl BlockCipher for Aes128 {} impl BlockEncryptMut for Aes128 {} impl BlockDecryptMut for Aes128 {} impl BlockEncrypt for Aes128 {} impl BlockDecrypt for Aes128 {} impl KeyInit for Aes128 {}
pub broadcast axiom fn axiom_aes256_key(n: nat) ensures #[trigger] key_ok::<Aes256>(n) <==> n == 32;
pub broadcast axiom fn axiom_aes128_key(n: nat) ensures #[trigger] key_ok::<Aes128>(n) <==> n == 16;
impl Aes256 {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new_from_slice(k: &[u8]) -> (r: Result<Aes256, InvalidLength>)
        ensures r is Ok <==> k@.len() == 32, r is Ok ==> r->Ok_0.key() == k@ { unimplemented!() }
    #[verifier::external_body]
    pub fn encrypt_blocks_mut(&mut self, b: &mut [[u8; 16]; 2])
        ensures final(self).key() == old(self).key(),
            final(b)@[0]@ == blk_enc(cid::<Aes256>(), old(self).key(), old(b)@[0]@),
            final(b)@[1]@ == blk_enc(cid::<Aes256>(), old(self).key(), old(b)@[1]@) { unimplemented!() }
}
}
